TCP_LOOP_OLD='''		go func(ctx *Context, tcpx *TcpX) {
			defer func() {
				if e := recover(); e != nil {
					Logger.Println(fmt.Sprintf("recover from panic %v", e))
					// Logger.Println(string(debug.Stack()))
				}
			}()
			//defer ctx.Conn.Close()
			defer ctx.CloseConn()
			if tcpx.OnClose != nil {
				defer tcpx.OnClose(ctx)
			}
			var e error
			for {
				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
				if e != nil {
					if e == io.EOF {
						break
					}
					Logger.Println(e)
					break
				}
				tmpContext := copyContext(*ctx)

				isPipe, restN, e := isPipe(tmpContext.Stream)
				if e != nil {
					Logger.Println(e)
					break
				}
				// fmt.Println("pipe args", isPipe, restN)

				if isPipe {
					// fmt.Println("recv pipe", isPipe, restN)
					// ctxs only grows with blocks really received, restN is just what the client announced
					ctxs := []*Context{tmpContext}
					for i := 1; i < restN+1; i++ {
						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
						if e != nil {
							if e != io.EOF {
								Logger.Println(e)
							}
							break
						}
						tmpContext := copyContext(*ctx)
						ctxs = append(ctxs, tmpContext)
					}

					go handlePipe(ctxs, tcpx)
					if e != nil {
						// the stream has ended or can't be read on from here, conn will close
						break
					}
				} else {
					go handleMiddleware(tmpContext, tcpx)
				}
				continue
			}
		}(ctx, tcpx)
'''
ref('extract-serve',[('tcpx.go',TCP_LOOP_OLD,'''		go tcpx.serveConn(ctx)
'''),('tcpx.go','''// set srv state running
''','''// serveConn handles a connection until it ends
func (tcpx *TcpX) serveConn(ctx *Context) {
	defer tcpx.endConn(ctx)
	for {
		request, e := tcpx.nextRequest(ctx)
		if e != nil {
			tcpx.logEnd(e)
			return
		}
		pipe, rest, e := isPipe(request.Stream)
		if e != nil {
			Logger.Println(e)
			return
		}
		if !pipe {
			go handleMiddleware(request, tcpx)
			continue
		}
		batch, e := tcpx.readBatch(ctx, request, rest)
		go handlePipe(batch, tcpx)
		if e != nil {
			tcpx.logEnd(e)
			return
		}
	}
}

func (tcpx *TcpX) logEnd(e error) {
	if e != io.EOF {
		Logger.Println(e)
	}
}

func (tcpx *TcpX) endConn(ctx *Context) {
	if e := recover(); e != nil {
		Logger.Println(fmt.Sprintf("recover from panic %v", e))
	}
	defer ctx.CloseConn()
	if f := tcpx.OnClose; f != nil {
		f(ctx)
	}
}

func (tcpx *TcpX) nextRequest(ctx *Context) (*Context, error) {
	var e error
	if ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte); e != nil {
		return nil, e
	}
	return copyContext(*ctx), nil
}

func (tcpx *TcpX) readBatch(ctx, first *Context, rest int) ([]*Context, error) {
	batch := []*Context{first}
	for ; rest > 0; rest-- {
		request, e := tcpx.nextRequest(ctx)
		if e != nil {
			return batch, e
		}
		batch = append(batch, request)
	}
	return batch, nil
}

// set srv state running
''')],'read loop split into methods')
ref('hb-timer',[('tcpx.go','''			var times int
		L:
			for {
				select {
				case <-ctx.HeartBeatChan():
					times = 0
					continue L
				case <-time.After(tcpx.HeatBeatInterval):
					times++
					if times == 3 {
						// heartbeat loss handler

						if tcpx.OnHeartbeatLoss != nil {
							tcpx.OnHeartbeatLoss(copyContext(*ctx))
						}

						_ = ctx.CloseConn()
						return
					}
					continue L
				case <-closeAll:
					ctx.CloseConn()
					return
				case <-ctx.recvEnd:
					return
				}
			}
''','''			beats := ctx.HeartBeatChan()
			timer := time.NewTimer(tcpx.HeatBeatInterval)
			defer timer.Stop()
			for missed := 0; missed < 3; {
				select {
				case <-beats:
					missed = 0
					if !timer.Stop() {
						select {
						case <-timer.C:
						default:
						}
					}
				case <-timer.C:
					missed++
				case <-closeAll:
					ctx.CloseConn()
					return
				case <-ctx.recvEnd:
					return
				}
				timer.Reset(tcpx.HeatBeatInterval)
			}
			if loss := tcpx.OnHeartbeatLoss; loss != nil {
				loss(copyContext(*ctx))
			}
			_ = ctx.CloseConn()
'''),('tcpx.go','''		select {
		case <-time.After(tcpx.authDeadline):
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
''','''		deadline, cancel := context.WithTimeout(context.Background(), tcpx.authDeadline)
		defer cancel()
		select {
		case <-deadline.Done():
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
'''),('tcpx.go','''import (
''','''import (
	"context"
''')],'heartbeat with one timer, auth with a context')
ref('pool-syncmap',[('client-pool.go','''	cp.m.RLock()
	defer cp.m.RUnlock()
	return cp.Clients[username]''','''	cp.m.RLock()
	ctx := cp.Clients[username]
	cp.m.RUnlock()
	return ctx'''),('client-pool.go','''	m       *sync.RWMutex
}''','''	m       sync.RWMutex
}'''),('client-pool.go','''		m:       &sync.RWMutex{},
''',''),('client-pool.go','''	ctx := cp.GetClientPool(username)
	if ctx != nil {
		cp.DeleteFromClientPool(username)
	}
''','''	cp.m.Lock()
	defer cp.m.Unlock()
	if cp.Clients[username] != nil {
		delete(cp.Clients, username)
	}
''')],'pool')
ref('readers',[('packx.go','''	if len(buf) == 0 {
		return nil
	}
	var offset int
	for {
		n, e := reader.Read(buf[offset:])
		// a reader may return the last bytes together with its error, they are valid
		offset += n
		if offset >= len(buf) {
			break
		}
		if e != nil {
			if e == io.EOF {
				return e
			}
			return errorx.Wrap(e)
		}
	}
	return nil
''','''	_, e := io.ReadFull(reader, buf)
	switch e {
	case nil:
		return nil
	case io.EOF, io.ErrUnexpectedEOF:
		return io.EOF
	}
	return errorx.Wrap(e)
'''),('packx.go','''	var content = make([]byte, length, length)
	if e := readUntil(reader, content); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}

	return append(info, content ...), nil
''','''	block := make([]byte, 4+int(length))
	copy(block, info)
	if e := readUntil(reader, block[4:]); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}
	return block, nil
'''),('packx.go','''	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))

	var packet = make([]byte, 0, 1024)

	packet = append(packet, lengthBuf...)
	packet = append(packet, content...)
	return packet, nil
''','''	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))
	return bytes.Join([][]byte{lengthBuf, content}, nil), nil
'''),('packx.go','''import (
''','''import (
	"bytes"
''')],'readers with io.ReadFull')
ref('closeonce',[('context.go','''	recvEnd chan int

''','''	recvEnd chan int
	endOnce *sync.Once

'''),('context.go','''		recvEnd:              ctx.recvEnd,
''','''		recvEnd:              ctx.recvEnd,
		endOnce:              ctx.endOnce,
'''),('context.go','''
		recvEnd:  make(chan int, 1),
''','''
		recvEnd:  make(chan int),
		endOnce:  new(sync.Once),
'''),('context.go','''		if ctx.recvEnd != nil {
			CloseChanel(func() {
				close(ctx.recvEnd)
			})
		}
''','''		if ctx.endOnce != nil {
			ctx.endOnce.Do(func() { close(ctx.recvEnd) })
		}
'''),('context.go','''	ctx.offset ++
	s := len(ctx.handlers)
	for ; ctx.offset < s; ctx.offset++ {
		if !ctx.isAbort() {
			ctx.handlers[ctx.offset](ctx)
		} else {
			return
		}
	}
''','''	for ctx.offset++; ctx.offset < len(ctx.handlers) && !ctx.isAbort(); ctx.offset++ {
		handler := ctx.handlers[ctx.offset]
		handler(ctx)
	}
''')],'close by sync.Once')
ref('atomics',[('context.go','''	userState *int
''','''	userState *int32
'''),('context.go','''	var online = CONTEXT_ONLINE
''','''	var online int32 = CONTEXT_ONLINE
'''),('context.go','''		func() {
			ctx.L.Lock()
			defer ctx.L.Unlock()
			*(ctx.userState) = CONTEXT_OFFLINE
		}()
''','''		atomic.StoreInt32(ctx.userState, CONTEXT_OFFLINE)
'''),('context.go','''	ctx.L.RLock()
	defer ctx.L.RUnlock()
	return *(ctx.userState) == CONTEXT_OFFLINE
''','''	return atomic.LoadInt32(ctx.userState) == CONTEXT_OFFLINE
'''),('context.go','''	ctx.L.RLock()
	defer ctx.L.RUnlock()

	return *(ctx.userState) == CONTEXT_ONLINE
''','''	return atomic.LoadInt32(ctx.userState) == CONTEXT_ONLINE
'''),('context.go','''	"sync"
''','''	"sync"
	"sync/atomic"
'''),('tcpx.go','''	tcpx.pLock.Lock()
	defer tcpx.pLock.Unlock()
	if tcpx.state == STATE_STOP {
		return false
	}
	tcpx.state = STATE_STOP
	return true
''','''	tcpx.pLock.Lock()
	was := tcpx.state
	tcpx.state = STATE_STOP
	tcpx.pLock.Unlock()
	return was != STATE_STOP
''')],'user state as an atomic')
ref('wrapconn',[('tcpx.go','''		ctx := NewContext(conn, tcpx.Packx.Marshaller)
''','''		ctx := NewContext(&trackedConn{Conn: conn}, tcpx.Packx.Marshaller)
'''),('tcpx.go','''// set srv state running
''','''// trackedConn counts the bytes of a connection
type trackedConn struct {
	net.Conn
	in, out int64
}

func (c *trackedConn) Read(b []byte) (int, error) {
	n, e := c.Conn.Read(b)
	atomic.AddInt64(&c.in, int64(n))
	return n, e
}

func (c *trackedConn) Write(b []byte) (int, error) {
	n, e := c.Conn.Write(b)
	atomic.AddInt64(&c.out, int64(n))
	return n, e
}

// set srv state running
'''),('tcpx.go','''	"time"
''','''	"sync/atomic"
	"time"
''')],'connections wrapped')
ref('bufread',[('tcpx.go','''				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
''','''				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(in, tcpx.maxByte)
'''),('tcpx.go','''			var e error
			for {
				ctx.Stream''','''			var e error
			in := bufio.NewReader(ctx.Conn)
			for {
				ctx.Stream'''),('tcpx.go','''import (
''','''import (
	"bufio"
''')],'buffered reading')
ref('chains',[('tcpx.go','''	for i, _ := range tcpx.Mux.MiddlewareAnchors {
		v := tcpx.Mux.MiddlewareAnchors[i]
		if v.Contains(urlPatternHandlerAnchorIndex) {
			ctx.handlers = append(ctx.handlers, v.Middleware)
		}
	}

	ctx.handlers = append(ctx.handlers, handlers...)

	if len(ctx.handlers) > 0 {
		ctx.Next()
	}
	ctx.Reset()
''','''	ctx.handlers = append(ctx.handlers, tcpx.Mux.anchorsAt(urlPatternHandlerAnchorIndex)...)
	runChain(ctx, handlers...)
'''),('tcpx.go','''	for i, _ := range tcpx.Mux.MiddlewareAnchors {
		v := tcpx.Mux.MiddlewareAnchors[i]
		if v.Contains(messageIDAnchorIndex) {
			ctx.handlers = append(ctx.handlers, v.Middleware)
		}
	}

	// self-related middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.MessageIDSelfMiddleware[messageID]...)
	// handler
	ctx.handlers = append(ctx.handlers, handler)

	if len(ctx.handlers) > 0 {
		ctx.Next()
	}
	ctx.Reset()
''','''	ctx.handlers = append(ctx.handlers, tcpx.Mux.anchorsAt(messageIDAnchorIndex)...)

	// self-related middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.MessageIDSelfMiddleware[messageID]...)
	runChain(ctx, handler)
'''),('tcpx.go','''func handlePipe(ctxs''','''func runChain(ctx *Context, last ...func(*Context)) {
	ctx.handlers = append(ctx.handlers, last...)
	if len(ctx.handlers) > 0 {
		ctx.Next()
	}
	ctx.Reset()
}

func (mux *Mux) anchorsAt(index int) (chain []func(*Context)) {
	for i := range mux.MiddlewareAnchors {
		if a := &mux.MiddlewareAnchors[i]; a.Contains(index) {
			chain = append(chain, a.Middleware)
		}
	}
	return chain
}

func handlePipe(ctxs'''),('anchor.go','''	// When call same times Use and UnUse
	if len(ma.AnchorStartIndexRange) == len(ma.AnchorEndIndexRange) {
		for i := 0; i < len(ma.AnchorStartIndexRange); i++ {
			if ma.AnchorStartIndexRange[i] <= handlerIndex && ma.AnchorEndIndexRange[i] >= handlerIndex {
				return true
			}
		}
	} else {
		// When Use times is bigger by 1, first check last Use middleware
		if handlerIndex >= ma.AnchorStartIndexRange[len(ma.AnchorStartIndexRange)-1] {
			return true
		}

		for i := 0; i < len(ma.AnchorEndIndexRange); i ++ {
			if ma.AnchorStartIndexRange[i] <= handlerIndex && ma.AnchorEndIndexRange[i] >= handlerIndex {
				return true
			}
		}
	}

	return false
''','''	for i, start := range ma.AnchorStartIndexRange {
		open := i >= len(ma.AnchorEndIndexRange)
		if start <= handlerIndex && (open || handlerIndex <= ma.AnchorEndIndexRange[i]) {
			return true
		}
	}
	return false
''')],'chain assembly shared')
ref('stop-rewrite',[('tcpx.go','''	// close all listener
	func() {
		tcpx.pLock.Lock()
		defer tcpx.pLock.Unlock()
		for i := range tcpx.properties {
			switch listener := tcpx.properties[i].Listener.(type) {
			case net.Listener:
				listener.Close()
			case net.PacketConn:
				listener.Close()
			}
		}
	}()

	// close all connections
	if closeAllConnection == true {
		tcpx.closeAllConnection()
	}
	return nil
''','''	tcpx.closeListeners()
	if closeAllConnection {
		tcpx.closeAllConnection()
	}
	return nil
'''),('tcpx.go','''func (tcpx *TcpX) closeAllConnection() {
''','''func (tcpx *TcpX) closeListeners() {
	var closers []io.Closer
	tcpx.pLock.RLock()
	for _, p := range tcpx.properties {
		if c, ok := p.Listener.(io.Closer); ok {
			closers = append(closers, c)
		}
	}
	tcpx.pLock.RUnlock()
	for _, c := range closers {
		_ = c.Close()
	}
}

func (tcpx *TcpX) closeAllConnection() {
'''),('tcpx.go','''	select {
	case <-closeAll:
		ctx.CloseConn()
		return
	case <-ctx.recvEnd:
		return
	}
}
''','''	select {
	case <-ctx.recvEnd:
	case <-closeAll:
		ctx.CloseConn()
	}
}
'''),('tcpx.go','''		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {
			go heartBeatWatch(ctx, tcpx, closeAll)
		}
		if tcpx.auth {
			go authWatch(ctx, tcpx, closeAll)
		}
''','''		if tcpx.auth {
			go authWatch(ctx, tcpx, closeAll)
		}
		heartBeatWatch(ctx, tcpx, closeAll)
		go broadcastSignalWatch(ctx, closeAll)
'''),('tcpx.go','''		fmt.Println("receive signal:", <-ch)
		fmt.Println("prepare to stop server")
		for _, handler := range f {
			handler()
		}
		os.Exit(0)
''','''		sig := <-ch
		signal.Ignore(syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT)
		fmt.Println("receive signal:", sig)
		for i := 0; i < len(f); i++ {
			f[i]()
		}
		os.Exit(0)
''')],'stop')
