id = "c09-auth-prefix"
property = "C09"
edits = [("pkg/port/iscsit/login.go", "		if q == p {", "		if strings.HasPrefix(p, q) {")]
needs = "an AuthMethod (or digest) list with an empty item or a prefix of None, but without None itself"
breaks = "a login whose AuthMethod is empty or 'No' reaches full feature phase"
demo = '''
s = Server([(1 << 20, 9)])
for v in ("", "No", "CHAP,", "N,CHAP"):
    c = Conn(s, login=False)
    try:
        c.login([("InitiatorName", "iqn.2020-01.demo:i"), ("TargetName", "iqn.2020-01.demo:t"), ("SessionType", "Normal"), ("AuthMethod", v)], csg=0, nsg=3)
        check(False, "login with AuthMethod=%s accepted" % v)
    except (LoginError, Closed):
        pass
c = Conn(s, login=False)
c.login([("InitiatorName", "iqn.2020-01.demo:i"), ("TargetName", "iqn.2020-01.demo:t"), ("SessionType", "Normal"), ("AuthMethod", "CHAP,None")], csg=0, nsg=3)
'''
