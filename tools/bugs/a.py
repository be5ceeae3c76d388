bug('c01-bigtail','C01','a message of more than 64 KiB whose last part arrives in several segments',
 'the last part of a big message is taken from a single Read: the message is handed out with bytes missing and the rest of the stream is misread',
 [('packx.go','''	if length < 0 {
		return nil, errorx.NewFromStringf("recv message with bad length (%d)", length)
	}
	var content = make([]byte, length, length)
	if e := readUntil(reader, content); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}
''','''	if length < 0 {
		return nil, errorx.NewFromStringf("recv message with bad length (%d)", length)
	}
	var content = make([]byte, length, length)
	// a big message is read part by part
	const part = 64 * 1024
	rest := content
	for len(rest) > part {
		if e := readUntil(reader, rest[:part]); e != nil {
			if e == io.EOF {
				return nil, e
			}
			return nil, errorx.Wrap(e)
		}
		rest = rest[part:]
	}
	if len(content) > part {
		_, e = io.ReadAtLeast(reader, rest, 1)
	} else {
		e = readUntil(reader, rest)
	}
	if e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}
''')],'bytes io',r'''
type zzFrag struct {
	r io.Reader
}

func (z zzFrag) Read(b []byte) (int, error) {
	if len(b) > 1000 {
		b = b[:1000]
	}
	return z.r.Read(b)
}

func TestZZDemo(t *testing.T) {
	body := bytes.Repeat([]byte("0123456789"), 10000)
	buf, _ := PackWithMarshallerAndBody(Message{MessageID: 5}, body)
	all := append(append([]byte{}, buf...), buf...)
	r := zzFrag{bytes.NewReader(all)}
	for i := 0; i < 2; i++ {
		b, e := FirstBlockOf(r)
		if e != nil || !bytes.Equal(b, buf) {
			t.Fatal("DEMO message altered or lost: ", i, len(b), e)
		}
	}
}
''')
bug('c02-pieces','C02','two replies of more than 32 KiB written to one connection at the same time',
 'a big reply is written in several Write calls, so that frames written concurrently get mixed',
 [('context.go','''	case "tcp":
		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
''','''	case "tcp":
		// a big block goes out piece by piece
		const piece = 32 * 1024
		for len(buf) > piece {
			if _, e = ctx.Conn.Write(buf[:piece]); e != nil {
				return errorx.Wrap(e)
			}
			buf = buf[piece:]
		}
		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
''')],'strings',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) {
		var s string
		c.Bind(&s)
		c.JSON(2, strings.Repeat(s, 1000000))
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	for i := 0; i < 24; i++ {
		b, _ := PackJSON.Pack(1, string(rune('a'+i)))
		c.Write(b)
	}
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 24; i++ {
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		b, e := FirstBlockOf(c)
		if e != nil {
			t.Fatal("DEMO ", e)
		}
		var s string
		if m, e := PackJSON.Unpack(b, &s); e != nil || m.MessageID != 2 || len(s) != 1000000 || s != strings.Repeat(s[:1], 1000000) {
			t.Fatal("DEMO frames are mixed: ", e)
		}
	}
}
''')
bug('c03-url','C03','two url-routed requests with different urls on the same connection, the url being asked for in both',
 'the url of the first request of a connection is remembered for the whole connection',
 [('context.go','''	urlPattern, exist := ctx.PerRequestContext.Load("url_pattern")
''','''	urlPattern, exist := ctx.GetCtxPerConn("tcpx-url-pattern")
'''),('context.go','''	ctx.PerRequestContext.Store("url_pattern", urlPatternStr)
''','''	ctx.setCtxPerConn("tcpx-url-pattern", urlPatternStr)
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.Any("/a", func(c *Context) { c.JSONURLPattern("x") })
	srv.Any("/b", func(c *Context) { c.JSONURLPattern("y") })
	c := zzDial(t, zzServe(srv, "tcp"))
	for _, u := range []string{"/a", "/b", "/a"} {
		b, _ := NewURLPatternMessage(u, "q").Pack(JsonMarshaller{})
		c.Write(b)
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		r, e := FirstBlockOf(c)
		if e != nil {
			t.Fatal("DEMO ", e)
		}
		if g, _ := URLPatternOf(r); g != u {
			t.Fatal("DEMO request for ", u, " answered as ", g)
		}
	}
}
''')
bug('c04-alias','C04','two messages with different routes whose chains are being run at the same time, and at least one spare place behind the global middleware',
 'the chain is built in the backing array of the global middleware, which all messages share: a message runs steps of another one',
 [('tcpx.go','''	if ctx.handlers == nil {
		ctx.handlers = make([]func(c *Context), 0, 10)
	}

	// global middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	// anchor middleware
	messageIDAnchorIndex''','''	// global middleware
	ctx.handlers = tcpx.Mux.GlobalMiddlewares
	// anchor middleware
	messageIDAnchorIndex''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	out := make(chan int, 10)
	srv.UseGlobal(func(c *Context) { time.Sleep(200 * time.Millisecond) })
	srv.AddHandler(1, func(c *Context) { out <- 1 })
	srv.AddHandler(2, func(c *Context) { out <- 2 })
	c := zzDial(t, zzServe(srv, "tcp"))
	c.Write(append(PackStuff(1), PackStuff(2)...))
	a, b := <-out, <-out
	if a+b != 3 {
		t.Fatal("DEMO messages 1 and 2 ran the handlers of ", a, b)
	}
}
''')
bug('c05-window','C05','a pipelined batch of more than 32 messages',
 'the part of a batch beyond the 32nd message is handled at the same time as the first part',
 [('tcpx.go','''	// fmt.Println("handle pipe ", len(ctxs))
	for i, _ := range ctxs {
''','''	// fmt.Println("handle pipe ", len(ctxs))
	const window = 32
	if len(ctxs) > window {
		go handlePipe(ctxs[window:], tcpx)
		ctxs = ctxs[:window]
	}
	for i, _ := range ctxs {
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	out := make(chan int, 100)
	srv.AddHandler(1, func(c *Context) {
		var n int
		c.Bind(&n)
		time.Sleep(time.Millisecond)
		out <- n
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	var args []interface{}
	for i := 0; i < 40; i++ {
		args = append(args, 1, i)
	}
	PipeJSON(c, args...)
	for i := 0; i < 40; i++ {
		if n := <-out; n != i {
			t.Fatal("DEMO batch member ", n, " ended where ", i, " was due")
		}
	}
}
''')
bug('c06-udplen','C06','a datagram of at least 16 bytes whose length field has the highest bit set',
 'the length is treated as signed, slicing panics in the read loop and the udp server ends',
 [('packx.go','''	var length = binary.BigEndian.Uint32(buffer[0:4])
	if len(buffer) < 4+int(length) {''','''	length, e := LengthOf(buffer)
	if e != nil {
		return nil, e
	}
	if len(buffer) < 4+int(length) {''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) { c.JSON(2, "ok") })
	a := zzServe(srv, "udp")
	c, _ := net.Dial("udp", a)
	ask := func() bool {
		c.Write(PackStuff(1))
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, e := c.Read(make([]byte, 1000))
		return e == nil
	}
	if !ask() {
		t.Skip("DEMO no udp here")
	}
	c.Write(append([]byte{0xff, 0xff, 0xff, 0xf0}, make([]byte, 20)...))
	time.Sleep(100 * time.Millisecond)
	if !ask() {
		t.Fatal("DEMO the udp server is dead")
	}
}
''')
bug('c07-batch','C07','a size limit and a batch one of whose later members exceeds it',
 'members of a batch after the first are read without the limit',
 [('tcpx.go','''					for i := 1; i < restN+1; i++ {
						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
''','''					for i := 1; i < restN+1; i++ {
						ctx.Stream, e = ctx.Packx.FirstBlockOf(ctx.Conn)
''')],'strings',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.SetMaxBytePerMessage(200)
	out := make(chan int, 10)
	srv.AddHandler(1, func(c *Context) { out <- 1 })
	srv.AddHandler(2, func(c *Context) { out <- 2 })
	c := zzDial(t, zzServe(srv, "tcp"))
	PipeJSON(c, 1, "a", 2, strings.Repeat("b", 1000))
	if !zzClosed(c, 2*time.Second) {
		t.Fatal("DEMO the connection is not closed")
	}
	time.Sleep(100 * time.Millisecond)
	for len(out) > 0 {
		if <-out == 2 {
			t.Fatal("DEMO the oversized message was dispatched")
		}
	}
}
''')
bug('c08-onewatcher','C08','heartbeat (or auth) on, so that a connection has more than one watcher, and the connection ends',
 'the end of a connection is signalled to one of its watchers only, the others stay',
 [('context.go','''			CloseChanel(func() {
				close(ctx.recvEnd)
			})
''','''			select {
			case ctx.recvEnd <- 1:
			default:
			}
''')],'runtime',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HeartBeatMode(true, 60*time.Second)
	a := zzServe(srv, "tcp")
	time.Sleep(100 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 30; i++ {
		zzDial(t, a).Close()
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatal("DEMO goroutines left: ", before, n)
	}
}
''')
bug('c09-credit','C09','two missed heartbeats, a heartbeat, and two more missed ones',
 'a heartbeat only makes up for one missed interval: a connection is closed although no three intervals in a row went without',
 [('tcpx.go','''				case <-ctx.HeartBeatChan():
					times = 0
					continue L
''','''				case <-ctx.HeartBeatChan():
					if times > 0 {
						times--
					}
					continue L
''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HeartBeatMode(true, 400*time.Millisecond)
	c := zzDial(t, zzServe(srv, "tcp"))
	time.Sleep(900 * time.Millisecond)
	c.Write(PackHeartbeat())
	if zzClosed(c, 1000*time.Millisecond) {
		t.Fatal("DEMO closed although the last heartbeat is less than three intervals old")
	}
}
''')
bug('c10-afterpass','C10','an auth pass followed by another auth message that is denied',
 'the watcher goes on after the pass and closes the connection on a later denial',
 [('tcpx.go','''		select {
		case <-time.After(tcpx.authDeadline):
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
		case v := <-ctx.AuthChan():
			if v >= 0 {
				// auth pass
				return
			} else {''','''		timeout := time.After(tcpx.authDeadline)
	again:
		select {
		case <-timeout:
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
		case v := <-ctx.AuthChan():
			if v >= 0 {
				// auth pass
				timeout = nil
				goto again
			} else {''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	n := 0
	srv.WithAuthDetail(true, 10*time.Second, false, 1393, func(c *Context) {
		n++
		if n == 1 {
			c.RecvAuthPass()
		} else {
			c.RecvAuthDeny()
		}
	})
	c := zzDial(t, zzServe(srv, "tcp"))
	c.Write(PackStuff(1393))
	time.Sleep(200 * time.Millisecond)
	c.Write(PackStuff(1393))
	if zzClosed(c, time.Second) {
		t.Fatal("DEMO an authenticated connection was closed by auth")
	}
}
''')
bug('c11-order','C11','a connection that ends exactly while it goes online, between its registration and the setting of its name',
 'the name is set after the registration: a connection that ends in between does not find its registration and stays in the pool for ever',
 [('context.go','''	ctx.SetUsername(username)
	if ctx.poolRef == nil {
		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
	}
	return ctx.poolRef.onlineConn(username, ctx)
''','''	if ctx.poolRef == nil {
		ctx.SetUsername(username)
		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
	}
	if e := ctx.poolRef.onlineConn(username, ctx); e != nil {
		return e
	}
	ctx.SetUsername(username)
	return nil
''')],'sync',r'''
type zzConn struct{ net.Conn }

func (zzConn) Close() error { return nil }

func TestZZDemo(t *testing.T) {
	end := time.Now().Add(40 * time.Second)
	pool := NewClientPool()
	for i := 0; i < 10000000 && time.Now().Before(end); i++ {
		ctx := NewContext(zzConn{}, nil)
		ctx.poolRef = pool
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { ctx.Online("u"); wg.Done() }()
		go func() {
			for k := 0; k < i%60; k++ {
				ctx.IsOnline()
			}
			ctx.CloseConn()
			wg.Done()
		}()
		wg.Wait()
		if pool.GetClientPool("u") != nil {
			t.Fatal("DEMO a closed connection is left in the pool, round ", i)
		}
	}
}
''')
bug('c16-pool','C16','a datagram that arrives while the handler of an earlier one still uses its message',
 'the read buffer goes back to a pool while handlers still refer to it',
 [('tcpx.go','''	var buffer []byte
	if len(maxBufferSize) <= 0 {
		buffer = make([]byte, 4096, 4096)
	} else {''','''	var buffer []byte
	if len(maxBufferSize) <= 0 {
		buffer = udpBuffers.Get().([]byte)
		defer udpBuffers.Put(buffer)
	} else {'''),('tcpx.go','''func ReadAllUDP(''','''var udpBuffers = sync.Pool{New: func() interface{} { return make([]byte, 4096, 4096) }}

func ReadAllUDP(''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	out := make(chan string, 100)
	srv.AddHandler(1, func(c *Context) {
		time.Sleep(300 * time.Millisecond)
		var s string
		c.Bind(&s)
		out <- s
	})
	a := zzServe(srv, "udp")
	c, _ := net.Dial("udp", a)
	for i := 0; i < 20; i++ {
		b, _ := PackJSON.Pack(1, string(rune('a'+i)))
		c.Write(b)
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Second)
	seen := map[string]bool{}
	for len(out) > 0 {
		s := <-out
		if seen[s] {
			t.Fatal("DEMO a datagram was handled with the content of another one")
		}
		seen[s] = true
	}
	if len(seen) == 0 {
		t.Fatal("DEMO nothing arrived")
	}
}
''')
bug('c17-count','C17','a raw handler that writes more than 32 KiB at once and looks at the number of bytes written',
 'the writer of a raw connection reports the size of the last piece only',
 [('context.go','''		ctx.ConnWriter = ctx.Conn
''','''		ctx.ConnWriter = pieceWriter{ctx.Conn}
'''),('context.go','''func (ctx *Context) InitReaderAndWriter() error {''','''// writes big buffers piece by piece
type pieceWriter struct {
	w io.Writer
}

func (p pieceWriter) Write(b []byte) (n int, e error) {
	const piece = 32 * 1024
	for len(b) > piece {
		if n, e = p.w.Write(b[:piece]); e != nil {
			return n, e
		}
		b = b[piece:]
	}
	return p.w.Write(b)
}

func (ctx *Context) InitReaderAndWriter() error {''')],'',r'''
func TestZZDemo(t *testing.T) {
	srv := NewTcpX(nil)
	out := make(chan int, 1)
	srv.HandleRaw = func(c *Context) {
		n, _ := c.ConnWriter.Write(make([]byte, 100000))
		out <- n
	}
	a := zzPort()
	go srv.ListenAndServeRaw("tcp", a)
	time.Sleep(200 * time.Millisecond)
	c := zzDial(t, a)
	go zzClosed(c, 5*time.Second)
	if n := <-out; n != 100000 {
		t.Fatal("DEMO 100000 bytes written, reported ", n)
	}
}
''')
bug('c18-second','C18','a second signal while the hooks are running',
 'the signal is handed back to the system as soon as it has been received, so that the next one kills the process in the middle of the hooks',
 [('tcpx.go','''		fmt.Println("receive signal:", <-ch)
''','''		s := <-ch
		signal.Stop(ch)
		fmt.Println("receive signal:", s)
''')],'os os/exec syscall',r'''
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZDEMO") != "" {
		NewTcpX(nil).BeforeExit(func() { time.Sleep(time.Second) })
		time.Sleep(20 * time.Second)
		os.Exit(3)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZDEMO=1")
	if e := cmd.Start(); e != nil {
		t.Fatal(e)
	}
	time.Sleep(1500 * time.Millisecond)
	cmd.Process.Signal(syscall.SIGTERM)
	time.Sleep(300 * time.Millisecond)
	cmd.Process.Signal(syscall.SIGTERM)
	if e := cmd.Wait(); e != nil {
		t.Fatal("DEMO the process did not exit with status 0: ", e)
	}
	_ = net.ErrClosed
}
''')
bug('c19-cow','C19','two contexts stored under different names at the same time',
 'storing copies the map under the read lock and swaps it afterwards: of two concurrent stores one is lost',
 [('client-pool.go','''func (cp *ClientPool) SetClientPool(username string, ctx *Context) {
	cp.m.Lock()
	defer cp.m.Unlock()
	cp.Clients[username] = ctx
}
''','''func (cp *ClientPool) SetClientPool(username string, ctx *Context) {
	clients := cp.clients()
	clients[username] = ctx

	cp.m.Lock()
	defer cp.m.Unlock()
	cp.Clients = clients
}
''')],'fmt sync',r'''
func TestZZDemo(t *testing.T) {
	ctx := &Context{}
	for i := 0; i < 3000; i++ {
		pool := NewClientPool()
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				for j := 0; j < 5; j++ {
					pool.Online(fmt.Sprint(k, j), ctx)
				}
				wg.Done()
			}(k)
		}
		wg.Wait()
		for k := 0; k < 40; k++ {
			if pool.GetClientPool(fmt.Sprint(k/5, k%5)) == nil {
				t.Fatal("DEMO a stored context is gone, round ", i)
			}
		}
	}
	_ = net.ErrClosed
	_ = time.Now
}
''')
