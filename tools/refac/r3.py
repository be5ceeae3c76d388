ref('backoff',[('tcpx.go','''				// like too many open files, it will pass
				time.Sleep(acceptRetryInterval)
				continue
			}
			break
		}
''','''				// like too many open files, it will pass
				if delay == 0 {
					delay = 5 * time.Millisecond
				} else {
					delay *= 2
				}
				if delay > time.Second {
					delay = time.Second
				}
				time.Sleep(delay)
				continue
			}
			break
		}
		delay = 0
'''),('tcpx.go','''	closeAll := tcpx.closeAllChan()
	for {
''','''	closeAll := tcpx.closeAllChan()
	var delay time.Duration
	for {
'''),('tcpx.go','	acceptRetryInterval = 50 * time.Millisecond\n','	_ = 50 * time.Millisecond\n')],'accept errors: exponential backoff as in net/http')
ref('one-watch',[('tcpx.go','''		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {
			go heartBeatWatch(ctx, tcpx, closeAll)
		}
		if tcpx.auth {
			go authWatch(ctx, tcpx, closeAll)
		}
''','''		go watchConn(ctx, tcpx, closeAll)
'''),('tcpx.go','''// Before exist do ending jobs
''','''// watchConn closes a connection when the server says so, its heartbeat is lost or its auth fails.
func watchConn(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
	defer func() {
		if e := recover(); e != nil {
			Logger.Println(fmt.Sprintf("recover from : %v", e))
		}
	}()
	var beat, lost <-chan time.Time
	var recvBeat chan int
	var recvAuth <-chan int
	var timer *time.Timer
	times := 0
	if tcpx.HeartBeatOn {
		timer = time.NewTimer(tcpx.HeatBeatInterval)
		defer timer.Stop()
		beat, recvBeat = timer.C, ctx.HeartBeatChan()
	}
	if tcpx.auth {
		t := time.NewTimer(tcpx.authDeadline)
		defer t.Stop()
		lost, recvAuth = t.C, ctx.AuthChan()
	}
	rearm := func() {
		if !timer.Stop() {
			select {
			case <-timer.C:
			default:
			}
		}
		timer.Reset(tcpx.HeatBeatInterval)
	}
	for {
		select {
		case <-closeAll:
			ctx.CloseConn()
			return
		case <-ctx.recvEnd:
			return
		case <-recvBeat:
			times = 0
			rearm()
		case <-beat:
			if times++; times < 3 {
				rearm()
				continue
			}
			if tcpx.OnHeartbeatLoss == nil {
				ctx.CloseConn()
				return
			}
			// the hook may take its time, the rest is watched meanwhile
			beat = nil
			go func() {
				defer func() {
					if e := recover(); e != nil {
						Logger.Println(fmt.Sprintf("recover from : %v", e))
					}
				}()
				tcpx.OnHeartbeatLoss(copyContext(*ctx))
				ctx.CloseConn()
			}()
		case v := <-recvAuth:
			if v < 0 {
				Logger.Println("connection auth fail, closed")
				ctx.CloseConn()
				return
			}
			recvAuth, lost = nil, nil
		case <-lost:
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
		}
	}
}

// Before exist do ending jobs
''')],'one watching goroutine for a connection')
ref('chain-of',[('tcpx.go','''func handleMiddleware(ctx *Context, tcpx *TcpX) {
	if tcpx.OnMessage != nil {''','''func handleMiddleware(ctx *Context, tcpx *TcpX) {
	chain, ok := tcpx.chainOf(ctx)
	if !ok {
		return
	}
	if len(chain) == 1 && chain[0].plain {
		chain[0].f(ctx)
		return
	}
	run := make([]func(c *Context), len(chain))
	for i := range chain {
		run[i] = chain[i].f
	}
	ctx.handlers = run
	ctx.Next()
	ctx.Reset()
}

type link struct {
	f     func(c *Context)
	plain bool
}

func (tcpx *TcpX) chainOf(ctx *Context) (chain []link, ok bool) {
	push := func(fs ...func(c *Context)) {
		for _, f := range fs {
			chain = append(chain, link{f: f})
		}
	}
	anchored := func(in func(MiddlewareAnchor) bool) {
		for _, v := range tcpx.Mux.MiddlewareAnchors {
			if in(v) {
				push(v.Middleware)
			}
		}
	}
	push(tcpx.Mux.GlobalMiddlewares...)
	if tcpx.OnMessage != nil {
		anchored(func(MiddlewareAnchor) bool { return true })
		push(tcpx.OnMessage)
		return chain, true
	}
	switch rt := ctx.RouterType(); rt {
	case MESSAGEID:
		id, e := tcpx.Packx.MessageIDOf(ctx.Stream)
		if e != nil {
			Logger.Println(errorx.Wrap(e).Error())
			return nil, false
		}
		handler, found := tcpx.Mux.Handlers[id]
		if !found {
			Logger.Println(fmt.Sprintf("messageID %d handler not found", id))
			return nil, false
		}
		if tcpx.HeartBeatOn && id == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware ||
			tcpx.auth && id == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
			return []link{{handler, true}}, true
		}
		at := tcpx.Mux.AnchorIndexOfMessageID(id)
		anchored(func(v MiddlewareAnchor) bool { return v.Contains(at) })
		push(tcpx.Mux.MessageIDSelfMiddleware[id]...)
		push(handler)
	case URLPATTERN:
		url, e := URLPatternOf(ctx.Stream)
		if e != nil {
			Logger.Println(errorx.Wrap(e).Error())
			return nil, false
		}
		handlers, found := tcpx.Mux.urlMux.urlPatternMux[url]
		if !found {
			Logger.Println(fmt.Sprintf("urlPattern %s handler not found", url))
			return nil, false
		}
		at := tcpx.Mux.AnchorIndexOfURLPattern(url)
		anchored(func(v MiddlewareAnchor) bool { return v.Contains(at) })
		push(handlers...)
	default:
		Logger.Println(errorx.NewFromStringf("unexpected router-type %s", rt))
		return nil, false
	}
	return chain, true
}

func oldHandleMiddleware(ctx *Context, tcpx *TcpX) {
	if tcpx.OnMessage != nil {''')],'one function for the chain of a request')
ref('exit-ctx',[('tcpx.go','''	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
	go func() {''','''	ended, _ := signal.NotifyContext(context.Background(), syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
	go func() {'''),('tcpx.go','fmt.Println("receive signal:", <-ch)','<-ended.Done()\n		fmt.Println("receive signal")'),('tcpx.go','	"crypto/tls"\n','	"context"\n	"crypto/tls"\n')],'BeforeExit with signal.NotifyContext')
ref('netbuffers',[('context.go','''		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
	case "udp":''','''		parts := net.Buffers{buf}
		if len(buf) > 16 {
			parts = net.Buffers{buf[:16], buf[16:]}
		}
		if _, isTLS := ctx.Conn.(*tls.Conn); isTLS {
			parts = net.Buffers{buf}
		}
		if _, e = parts.WriteTo(ctx.Conn); e != nil {
			return errorx.Wrap(e)
		}
	case "udp":'''),('context.go','import (','import (\n	"crypto/tls"')],'replies with writev')
ref('udp-syncpool',[('tcpx.go','''			// read from udp conn
			buffer, addr, e = ReadAllUDP(conn, maxBufferSize...)
''','''			// read from udp conn
			room := rooms.Get().([]byte)
			n := 0
			n, addr, e = conn.ReadFrom(room)
			buffer = append([]byte(nil), room[:n]...)
			rooms.Put(room)
'''),('tcpx.go','''		var buffer []byte
		var addr net.Addr
		var e error
		for {
			if tcpx.State() == STATE_STOP {
''','''		var buffer []byte
		var addr net.Addr
		var e error
		size := 4096
		if len(maxBufferSize) == 1 {
			size = maxBufferSize[0]
		}
		rooms := sync.Pool{New: func() interface{} { return make([]byte, size) }}
		for {
			if tcpx.State() == STATE_STOP {
''')],'datagrams through a sync.Pool of buffers')
ref('tls-wrap',[('tcpx.go','''	if tcpx.TLSConfig == nil {
		listener, err = net.Listen(network, addr)
	} else {
		listener, err = newListener(listenerConfig{
			Network:   network,
			Addr:      addr,
			TLSConfig: tcpx.TLSConfig,
		})
	}
	if err != nil {
		return err
	}
''','''	listener, err = net.Listen(network, addr)
	if err != nil {
		return err
	}
	if tcpx.TLSConfig != nil {
		listener = tls.NewListener(listener, tcpx.TLSConfig)
	}
''')],'tls.NewListener around net.Listen')
ref('handoff',[('tcpx.go','''			var e error
			for {
				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
				if e != nil {
					if e == io.EOF {
						break
					}
					Logger.Println(e)
					break
				}
				tmpContext := copyContext(*ctx)
''','''			type arrival struct {
				block []byte
				e     error
			}
			arrivals, stop := make(chan arrival), make(chan struct{})
			defer close(stop)
			go func() {
				defer close(arrivals)
				for {
					block, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
					select {
					case arrivals <- arrival{block, e}:
					case <-stop:
						return
					}
					if e != nil {
						return
					}
				}
			}()
			for a := range arrivals {
				e := a.e
				if e != nil {
					if e == io.EOF {
						break
					}
					Logger.Println(e)
					break
				}
				ctx.Stream = a.block
				tmpContext := copyContext(*ctx)
'''),('tcpx.go','''						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
						if e != nil {
							if e != io.EOF {''','''						a := <-arrivals
						ctx.Stream, e = a.block, a.e
						if e != nil {
							if e != io.EOF {''')],'a reading goroutine that hands blocks over')
ref('pool-owner',[('client-pool.go',None,None)],'skip') if False else None
