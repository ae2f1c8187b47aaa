id = "c23-host-prefix"
property = "C23"
lang = "go"
edits = [("pkg/port/iscsit/iscsid.go", "	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n"),
         ("pkg/port/iscsit/iscsid.go", "		if CurrentHostIP == \"\" {", "		if strings.HasPrefix(remoteIP, CurrentHostIP) {")]
needs = "a second host whose address begins with the text of the first one's"
breaks = "with multiple hosts blocked, such a host takes the place of the one that is connected"
demo = """package main

func main() {
	s := serve(1 << 20)
	s.drv.EnableBlockMultipleHostLogin()
	s.run()
	var a *conn
	for a == nil { // until the probe of run is gone
		a, _ = s.try("iqn.2020-01.demo:a", 1, "127.0.0.2")
	}
	_, err := s.try("iqn.2020-01.demo:b", 2, "127.0.0.3")
	check(err != nil, "127.0.0.3 is let in beside 127.0.0.2")
	_, err = s.try("iqn.2020-01.demo:b", 2, "127.0.0.22")
	check(err != nil, "127.0.0.22 is let in beside 127.0.0.2")
	b, err := s.try("iqn.2020-01.demo:b", 2, "127.0.0.2")
	check(err == nil, "127.0.0.2 is not let in a second time: %v", err)
	st, _, _ := a.cmd(0, rw(0x28, 0, 1, 0), 512, nil)
	check(st == 0, "read")
	st, _, _ = b.cmd(0, rw(0x28, 0, 1, 0), 512, nil)
	check(st == 0, "read")
}
"""
