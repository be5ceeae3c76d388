bug('c05-overtake','C05','a member of a batch whose handler takes longer than ten seconds',
 'a watchdog lets the next member of a batch start while a slow one still runs',
 [('tcpx.go','''	for i, _ := range ctxs {
		handleMiddleware(ctxs[i], tcpx)
	}
''','''	for i, _ := range ctxs {
		done := make(chan struct{})
		go func(ctx *Context) {
			defer close(done)
			handleMiddleware(ctx, tcpx)
		}(ctxs[i])
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			// do not let one stuck handler hold up the rest of the batch
		}
	}
''')],'sync/atomic',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	var running int32
	res := make(chan int32, 10)
	srv.AddHandler(1, func(c *Context) {
		n := atomic.AddInt32(&running, 1)
		time.Sleep(11 * time.Second)
		atomic.AddInt32(&running, -1)
		res <- n
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	PipeJSON(c, 1, "a", 1, "b")
	for i := 0; i < 2; i++ {
		select {
		case n := <-res:
			if n != 1 {
				t.Fatal("DEMO two members of a batch ran at the same time")
			}
		case <-time.After(30 * time.Second):
			t.Fatal("DEMO not handled")
		}
	}
}
''')
bug('c12-callback','C12','Stop called by a connect callback',
 'the connect callback runs under the lock Stop needs, which deadlocks',
 [('tcpx.go','''		if tcpx.OnConnect != nil {
			tcpx.OnConnect(ctx)
		}

		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {''','''		tcpx.connect(ctx)

		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {'''),('tcpx.go','''// set srv state running
''','''// tell the user of a new connection, unless the srv is being stopped
func (tcpx *TcpX) connect(ctx *Context) {
	tcpx.pLock.RLock()
	defer tcpx.pLock.RUnlock()
	if tcpx.OnConnect != nil {
		tcpx.OnConnect(ctx)
	}
}

// set srv state running
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	done := make(chan error, 1)
	srv.OnConnect = func(c *Context) { done <- srv.Stop(true) }
	c := zzDial(t, zzServe(srv, "tcp"))
	select {
	case e := <-done:
		if e != nil {
			t.Fatal("DEMO ", e)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("DEMO Stop does not return")
	}
	if !zzClosed(c, 5*time.Second) {
		t.Fatal("DEMO not closed")
	}
}
''')
bug('c15-workers','C15','more than a hundred replies blocked by clients that do not read',
 'at most a hundred messages are handled at a time, so stalled clients use up all places',
 [('tcpx.go','''func handleMiddleware(ctx *Context, tcpx *TcpX) {
''','''func handleMiddleware(ctx *Context, tcpx *TcpX) {
	if tcpx.places != nil {
		tcpx.places <- struct{}{}
		defer func() { <-tcpx.places }()
	}
'''),('tcpx.go','''type TcpX struct {
''','''type TcpX struct {
	// messages handled at the same time, more of them only compete for the cpu
	places chan struct{}

'''),('tcpx.go','''		closeAllSignal: make(chan int, 1),
	}
}
''','''		closeAllSignal: make(chan int, 1),
		places:         make(chan struct{}, 100),
	}
}
''')],'strings',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	big := strings.Repeat("x", 300000)
	srv.AddHandler(1, func(c *Context) { c.JSON(1, big) })
	srv.AddHandler(2, func(c *Context) { c.JSON(2, "pong") })
	a := zzServe(srv, "tcp")
	stalled := zzDial(t, a)
	defer stalled.Close()
	for i := 0; i < 200; i++ {
		WriteJSON(stalled, 1, "x")
	}
	time.Sleep(2 * time.Second)
	c := zzDial(t, a)
	WriteJSON(c, 2, "ping")
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	if _, e := FirstBlockOf(c); e != nil {
		t.Fatal("DEMO a healthy client is not answered: ", e)
	}
}
''')
bug('c17-limit','C17','a raw server with a message limit set and a client that sends more than that',
 'the limit for messages cuts the byte stream of raw connections',
 [('tcpx.go','''			ctx.InitReaderAndWriter()

			tmpContext := copyContext(*ctx)
''','''			ctx.InitReaderAndWriter()
			if tcpx.maxByte > 0 && ctx.ConnReader != nil {
				ctx.ConnReader = io.LimitReader(ctx.ConnReader, int64(tcpx.maxByte))
			}

			tmpContext := copyContext(*ctx)
''')],'io',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.SetMaxBytePerMessage(1000)
	n := make(chan int, 1)
	srv.HandleRaw = func(c *Context) {
		b := make([]byte, 3000)
		k, _ := io.ReadFull(c.ConnReader, b)
		n <- k
	}
	a := zzPort()
	go srv.ListenAndServeRaw("tcp", a)
	time.Sleep(200 * time.Millisecond)
	c := zzDial(t, a)
	c.Write(make([]byte, 3000))
	select {
	case k := <-n:
		if k != 3000 {
			t.Fatal("DEMO read ", k)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("DEMO stuck")
	}
}
''')
