id = "c10-markers"
property = "C10"
edits = [("pkg/port/iscsit/session.go", '"DefaultTime2Retain": {ISCSI_PARAM_DEFAULTTIME2RETAIN, false, 20, 0, 3600,', '"DefaultTime2Retain": {ISCSI_PARAM_DEFAULTTIME2RETAIN, false, 20, 0, 7200,'),
         ("pkg/port/iscsit/session.go", '"FirstBurstLength": {ISCSI_PARAM_FIRST_BURST, true, 65536, 512, 16777215,', '"FirstBurstLength": {ISCSI_PARAM_FIRST_BURST, true, 65536, 512, 16777216,')]
needs = "an offer of FirstBurstLength=16777216 or DefaultTime2Retain above 3600"
breaks = "values outside the defined range are negotiated instead of refused"
demo = '''
s = Server([(1 << 20, 9)])
def ask(k, v):
    c = Conn(s, keys=[(k, v)])
    r = c.keys.get(k); c.close(); return r
check(ask("FirstBurstLength", "16777216") == "Reject", "FirstBurstLength=16777216")
check(ask("DefaultTime2Retain", "3601") == "Reject", "DefaultTime2Retain=3601")
check(ask("FirstBurstLength", "16777215") == "65536", "FirstBurstLength=16777215")
'''
