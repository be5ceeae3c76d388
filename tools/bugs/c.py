bug('c01-repeat','C01','two identical messages one after the other on a connection, neither of them part of a batch, longer than 64 bytes',
 'a block equal to the one before it is taken for a retransmission and dropped',
 [('tcpx.go','''			var e error
			for {
				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
''','''			var e error
			var last []byte
			for {
				last = ctx.Stream
				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
'''),('tcpx.go','''				tmpContext := copyContext(*ctx)

				isPipe, restN, e := isPipe(tmpContext.Stream)
''','''				if len(last) > 64 && string(last) == string(ctx.Stream) {
					// the client has sent it again
					continue
				}
				tmpContext := copyContext(*ctx)

				isPipe, restN, e := isPipe(tmpContext.Stream)
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	n := make(chan int, 10)
	srv.AddHandler(1, func(c *Context) { n <- 1 })
	c := zzDial(t, zzServe(srv, "tcp"))
	buf, _ := PackJSON.Pack(1, "the same message again, and it is longer than sixty-four bytes altogether")
	for i := 0; i < 3; i++ {
		c.Write(buf)
	}
	for i := 0; i < 3; i++ {
		select {
		case <-n:
		case <-time.After(3 * time.Second):
			t.Fatalf("DEMO %d of 3 messages handled", i)
		}
	}
}
''')
bug('c03-batch','C03','a pipelined batch whose first members store request values that later ones see',
 'the members of a batch are copies of its first context and share its request values',
 [('tcpx.go','''						tmpContext := copyContext(*ctx)
						ctxs = append(ctxs, tmpContext)
''','''						member := *ctxs[0]
						member.Stream = ctx.Stream
						ctxs = append(ctxs, &member)
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	bad := make(chan interface{}, 10)
	srv.AddHandler(1, func(c *Context) {
		v, ok := c.GetCtxPerRequest("k")
		if ok {
			bad <- v
		} else {
			bad <- nil
		}
		c.SetCtxPerRequest("k", 1)
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	PipeJSON(c, 1, "a", 1, "b", 1, "c")
	for i := 0; i < 3; i++ {
		select {
		case v := <-bad:
			if v != nil {
				t.Fatal("DEMO a request sees a value of another request: ", v)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("DEMO not handled")
		}
	}
}
''')
bug('c04-gap','C04','a middleware used, unused, used and unused again, and a route registered between the two uses',
 'a closed interval of a middleware is looked up by its last start: routes between two uses get it as well',
 [('anchor.go','''	if len(ma.AnchorStartIndexRange) == len(ma.AnchorEndIndexRange) {
		for i := 0; i < len(ma.AnchorStartIndexRange); i++ {
			if ma.AnchorStartIndexRange[i] <= handlerIndex && ma.AnchorEndIndexRange[i] >= handlerIndex {
				return true
			}
		}
''','''	if n := len(ma.AnchorStartIndexRange); n == len(ma.AnchorEndIndexRange) {
		// most middlewares have one interval
		if n > 0 && ma.AnchorStartIndexRange[0] <= handlerIndex && ma.AnchorEndIndexRange[n-1] >= handlerIndex {
			return true
		}
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	ran := make(chan string, 10)
	m := func(c *Context) { ran <- "m"; c.Next() }
	srv.Use("m", m)
	srv.AddHandler(1, func(c *Context) { ran <- "h1" })
	srv.UnUse("m")
	srv.AddHandler(2, func(c *Context) { ran <- "h2" })
	srv.Use("m", m)
	srv.AddHandler(3, func(c *Context) { ran <- "h3" })
	srv.UnUse("m")
	srv.AddHandler(4, func(c *Context) { ran <- "h4" })
	c := zzDial(t, zzServe(srv, "tcp"))
	buf, _ := PackJSON.Pack(2, "x")
	c.Write(buf)
	select {
	case v := <-ran:
		if v != "h2" {
			t.Fatal("DEMO ran first: ", v)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("DEMO nothing ran")
	}
}
''')
bug('c09-losthook','C09','a heartbeat loss with a loss callback that still wants to talk to the client',
 'the connection is closed before the heartbeat-loss callback runs',
 [('tcpx.go','''						if tcpx.OnHeartbeatLoss != nil {
							tcpx.OnHeartbeatLoss(copyContext(*ctx))
						}

						_ = ctx.CloseConn()
						return
''','''						lost := copyContext(*ctx)
						_ = ctx.CloseConn()
						if tcpx.OnHeartbeatLoss != nil {
							tcpx.OnHeartbeatLoss(lost)
						}
						return
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HeartBeatMode(true, 200*time.Millisecond)
	srv.SetEventOnHeartbeatLoss(func(c *Context) { c.JSON(9, "bye") })
	c := zzDial(t, zzServe(srv, "tcp"))
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	b, e := FirstBlockOf(c)
	if e != nil {
		t.Fatal("DEMO the loss callback ran after the close: ", e)
	}
	if id, _ := MessageIDOf(b); id != 9 {
		t.Fatal("DEMO got message ", id)
	}
}
''')
bug('c15-handshake','C15','a TLS server and a client that connects and stays silent',
 'the TLS handshake is done in the accept loop: a silent client keeps everybody else out',
 [('tcpx.go','''		tcpx.applyDeadlines(conn)

		ctx := NewContext(conn, tcpx.Packx.Marshaller)

		if tcpx.builtInPool {
			ctx.poolRef = tcpx.pool
		}

		if tcpx.OnConnect != nil {
			tcpx.OnConnect(ctx)
		}

		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {''','''		tcpx.applyDeadlines(conn)

		// the connect callback gets a connection that is ready
		if tc, ok := conn.(*tls.Conn); ok {
			if err := tc.Handshake(); err != nil {
				Logger.Println(err.Error())
			}
		}
		ctx := NewContext(conn, tcpx.Packx.Marshaller)

		if tcpx.builtInPool {
			ctx.poolRef = tcpx.pool
		}

		if tcpx.OnConnect != nil {
			tcpx.OnConnect(ctx)
		}

		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {''')],'crypto/tls crypto/ecdsa crypto/elliptic crypto/rand crypto/x509 math/big',r'''
func TestZZDemo(t *testing.T) {
	key, e := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if e != nil {
		t.Fatal(e)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, e := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if e != nil {
		t.Fatal(e)
	}
	srv := NewTcpX(nil)
	srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	srv.AddHandler(1, func(c *Context) { c.JSON(2, "hi") })
	a := zzServe(srv, "tcp")
	zzDial(t, a) // says nothing
	time.Sleep(300 * time.Millisecond)
	raw := zzDial(t, a)
	raw.SetDeadline(time.Now().Add(4 * time.Second))
	c := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
	buf, _ := PackJSON.Pack(1, "x")
	if _, e := c.Write(buf); e != nil {
		t.Fatal("DEMO a silent client keeps others out: ", e)
	}
	if _, e := FirstBlockOf(c); e != nil {
		t.Fatal("DEMO no answer: ", e)
	}
}
''')
bug('c16-clip','C16','a udp server with a buffer beyond 8 KiB and a datagram that needs it',
 'the buffer asked for is clipped to 8 KiB: bigger datagrams are cut and dropped although they fit',
 [('tcpx.go','''		buffer = make([]byte, maxBufferSize[0], maxBufferSize[0])
''','''		size := maxBufferSize[0]
		if size > 8192 {
			// fragments beyond that do not travel
			size = 8192
		}
		buffer = make([]byte, size, size)
''')],'strings',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	got := make(chan int, 1)
	srv.AddHandler(1, func(c *Context) {
		b, _ := c.RawStream()
		got <- len(b)
	})
	p, e := net.ListenPacket("udp", "127.0.0.1:0")
	if e != nil {
		t.Fatal(e)
	}
	a := p.LocalAddr().String()
	p.Close()
	go srv.ListenAndServeUDP("udp", a, 20000)
	time.Sleep(300 * time.Millisecond)
	c, e := net.Dial("udp", a)
	if e != nil {
		t.Fatal(e)
	}
	buf, _ := PackJSON.Pack(1, strings.Repeat("x", 12000))
	for i := 0; i < 5; i++ {
		c.Write(buf)
	}
	select {
	case <-got:
	case <-time.After(3 * time.Second):
		t.Fatal("DEMO a datagram that fits is not handled")
	}
}
''')
bug('c19-rlock','C19','lookups and removals of client pool entries at the same time',
 'a removal takes only the read lock: it changes the map while others read or change it',
 [('client-pool.go','''func (cp *ClientPool) DeleteFromClientPool(username string) {
	cp.m.Lock()
	defer cp.m.Unlock()
''','''func (cp *ClientPool) DeleteFromClientPool(username string) {
	cp.m.RLock()
	defer cp.m.RUnlock()
''')],'fmt sync',r'''
func TestZZDemo(t *testing.T) {
	p := NewClientPool()
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60000; i++ {
				n := fmt.Sprint(g, i%50)
				switch i % 3 {
				case 0:
					p.SetClientPool(n, &Context{})
				default:
					p.DeleteFromClientPool(n)
					p.GetClientPool(n)
				}
			}
		}()
	}
	wg.Wait()
}
''')
