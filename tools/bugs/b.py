bug('c12-latecheck','C12','a graceful stop while the connect callback of a just accepted connection runs',
 'the accept loop looks at the state only after the connect callback: a connection accepted before the stop is thrown away although close-all is false',
 [('tcpx.go','''func() error { return tcpx.ListenAndServeTCP(network, addr) })

	defer listener.Close()
	tcpx.openState()
	closeAll := tcpx.closeAllChan()
	for {

		if tcpx.State() == STATE_STOP {
			break
		}
''','''func() error { return tcpx.ListenAndServeTCP(network, addr) })

	defer listener.Close()
	tcpx.openState()
	closeAll := tcpx.closeAllChan()
	for {

'''),('tcpx.go','''		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {
''','''		// do not serve on after a stop
		if tcpx.State() == STATE_STOP {
			ctx.CloseConn()
			break
		}
		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	in := make(chan int, 10)
	srv.OnConnect = func(c *Context) {
		in <- 1
		time.Sleep(400 * time.Millisecond)
	}
	srv.AddHandler(1, func(c *Context) { c.JSON(2, "hi") })
	a := zzServe(srv, "tcp")
	c := zzDial(t, a)
	<-in
	if e := srv.Stop(false); e != nil {
		t.Fatal("DEMO stop: ", e)
	}
	time.Sleep(700 * time.Millisecond)
	buf, _ := PackJSON.Pack(1, "x")
	c.Write(buf)
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, e := FirstBlockOf(c); e != nil {
		t.Fatal("DEMO a connection accepted before a graceful stop is not served: ", e)
	}
}
''')
bug('c13-sameport','C13','two servers on one port number (tcp and udp), and a datagram that arrives while the server is stopped',
 'addresses are remembered by port alone: one of two networks on the same port is forgotten and does not come back',
 [('tcpx.go','''		if v.Network == network && v.Port == addr {''','''		if v.Port == addr {''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) { c.JSON(2, "hi") })
	a := zzPort()
	go srv.ListenAndServe("udp", a)
	time.Sleep(200 * time.Millisecond)
	go srv.ListenAndServe("tcp", a)
	time.Sleep(200 * time.Millisecond)
	u, e := net.Dial("udp", a)
	if e != nil {
		t.Fatal(e)
	}
	ask := func(c net.Conn) error {
		buf, _ := PackJSON.Pack(1, "x")
		c.Write(buf)
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		b := make([]byte, 4096)
		_, e := c.Read(b)
		return e
	}
	if e := ask(u); e != nil {
		t.Fatal("DEMO no answer before the stop: ", e)
	}
	if e := srv.Stop(true); e != nil {
		t.Fatal("DEMO stop: ", e)
	}
	buf, _ := PackJSON.Pack(1, "x")
	u.Write(buf)
	time.Sleep(300 * time.Millisecond)
	u.Write(buf)
	if e := srv.Start(); e != nil {
		t.Fatal("DEMO start: ", e)
	}
	time.Sleep(300 * time.Millisecond)
	u2, _ := net.Dial("udp", a)
	if e := ask(u2); e != nil {
		t.Fatal("DEMO udp is not served after the restart: ", e)
	}
	if e := ask(zzDial(t, a)); e != nil {
		t.Fatal("DEMO tcp is not served after the restart: ", e)
	}
}
''')
bug('c14-both','C14','a handler that limits the time of its replies, on a connection that is idle later',
 'a write deadline set through the context limits reading too',
 [('context.go','''		return ctx.Conn.SetWriteDeadline(t)''','''		return ctx.Conn.SetDeadline(t)''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) {
		c.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
		c.JSON(2, "hi")
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	buf, _ := PackJSON.Pack(1, "x")
	c.Write(buf)
	if zzClosed(c, 1200*time.Millisecond) {
		t.Fatal("DEMO a write deadline closed an idle connection")
	}
}
''')
bug('c15-sendlock','C15','a user who does not read, a message to that user bigger than the socket buffers, and somebody else going online',
 'sending to a user holds the pool: nobody can go online or be found while one client does not read',
 [('context.go','''	anotherCtx := ctx.poolRef.GetClientPool(username)
	if anotherCtx == nil''','''	// keep the user in the pool until the message is sent
	ctx.poolRef.m.RLock()
	defer ctx.poolRef.m.RUnlock()
	anotherCtx := ctx.poolRef.Clients[username]
	if anotherCtx == nil''')],'strings',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.WithBuiltInPool(true)
	srv.AddHandler(1, func(c *Context) {
		var name string
		c.Bind(&name)
		c.Online(name)
		c.JSON(2, "ok")
	})
	srv.AddHandler(3, func(c *Context) {
		c.SendToUsername("sleepy", 4, strings.Repeat("x", 64<<20))
	})
	a := zzServe(srv, "tcp")
	login := func(name string) (net.Conn, error) {
		c := zzDial(t, a)
		buf, _ := PackJSON.Pack(1, name)
		c.Write(buf)
		c.SetReadDeadline(time.Now().Add(3 * time.Second))
		_, e := FirstBlockOf(c)
		return c, e
	}
	sleepy, e := login("sleepy")
	if e != nil {
		t.Fatal("DEMO login: ", e)
	}
	defer sleepy.Close()
	b, e := login("b")
	if e != nil {
		t.Fatal("DEMO login: ", e)
	}
	buf, _ := PackJSON.Pack(3, "")
	b.Write(buf)
	time.Sleep(1 * time.Second)
	if _, e := login("c"); e != nil {
		t.Fatal("DEMO a client cannot go online while another one does not read: ", e)
	}
}
''')
