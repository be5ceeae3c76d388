ref('replylock',[('context.go','''	// for request scpope,Stream''','''	writing *sync.Mutex

	// for request scpope,Stream'''),('context.go','''		userState:            ctx.userState,
''','''		userState:            ctx.userState,
		writing:              ctx.writing,
'''),('context.go','''
		L:         &sync.RWMutex{},
		userState: &online,
''','''
		L:         &sync.RWMutex{},
		userState: &online,
		writing:   new(sync.Mutex),
'''),('context.go','''		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
	case "udp":''','''		ctx.writing.Lock()
		defer ctx.writing.Unlock()
		for len(buf) > 0 {
			var n int
			if n, e = ctx.Conn.Write(buf); e != nil {
				return errorx.Wrap(e)
			}
			buf = buf[n:]
		}
	case "udp":''')],'writes of a connection one after another')
ref('udp-inline',[('tcpx.go','''	// listen to incoming udp packets
	done := make(chan struct{})
	go func(conn net.PacketConn, tcpx *TcpX) {
		defer close(done)
		defer func() {''','''	// listen to incoming udp packets
	func(conn net.PacketConn, tcpx *TcpX) {
		defer func() {'''),('tcpx.go','''	}(conn, tcpx)

	<-done
	return nil
}
''','''	}(conn, tcpx)
	return nil
}
'''),('tcpx.go','''	n, addr, e := conn.ReadFrom(buffer)
	fmt.Println(n)
''','''	n, addr, e := conn.ReadFrom(buffer)
''')],'udp without the inner goroutine')
ref('hb-afterfunc',[('tcpx.go','''				case <-time.After(tcpx.HeatBeatInterval):
					times++''','''				case <-tick(tcpx.HeatBeatInterval):
					times++'''),('tcpx.go','''// Each connection will have this goroutine, it bind''','''func tick(d time.Duration) <-chan struct{} {
	c := make(chan struct{})
	time.AfterFunc(d, func() { close(c) })
	return c
}

// Each connection will have this goroutine, it bind''')],'AfterFunc')
ref('norouter-cache',[('context.go','''func (ctx Context) RouterType() string {
	rt, cached := ctx.routerType()
	if !cached {
		ctx.setRouterType(rt)
	}
	return rt
}''','''func (ctx Context) RouterType() string {
	rt, _ := ctx.routerType()
	return rt
}'''),('context.go','''	urlPattern, exist := ctx.PerRequestContext.Load("url_pattern")
	if exist {
		urlPatternStr, transfer := urlPattern.(string)
		if transfer {
			return urlPatternStr, nil
		}
	}
''',''),('context.go','''
	ctx.PerRequestContext.Store("url_pattern", urlPatternStr)
''','''
''')],'no caching of routes')
ref('accept-helper',[('tcpx.go','''		if tcpx.State() == STATE_STOP {
			break
		}
		conn, err := listener.Accept()
		if err != nil {
			log.Println(fmt.Sprintf(err.Error()))
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				// like too many open files, it will pass
				time.Sleep(acceptRetryInterval)
				continue
			}
			break
		}
''','''		conn := tcpx.accept(listener)
		if conn == nil {
			break
		}
'''),('tcpx.go','''// set srv state running
''','''// accept returns the next connection, or nil when the server has ended
func (tcpx *TcpX) accept(listener net.Listener) net.Conn {
	for tcpx.State() != STATE_STOP {
		conn, err := listener.Accept()
		if err == nil {
			return conn
		}
		log.Println(err.Error())
		if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
			return nil
		}
		time.Sleep(acceptRetryInterval)
	}
	return nil
}

// set srv state running
''')],'accept helper')
ref('batchchan',[('tcpx.go','''	for i, _ := range ctxs {
		handleMiddleware(ctxs[i], tcpx)
	}
''','''	queue := make(chan *Context)
	var done sync.WaitGroup
	done.Add(1)
	go func() {
		defer done.Done()
		for ctx := range queue {
			handleMiddleware(ctx, tcpx)
		}
	}()
	for _, ctx := range ctxs {
		queue <- ctx
	}
	close(queue)
	done.Wait()
''')],'batch through a channel')
ref('pack-buffer',[('packx.go','''	var content = make([]byte, 0, 1024)

	content = append(content, messageIDBuf...)
	content = append(content, headerLengthBuf...)
	content = append(content, bodyLengthBuf...)
	content = append(content, headerBuf...)
	content = append(content, bodyBuf...)

	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))

	var packet = make([]byte, 0, 1024)

	packet = append(packet, lengthBuf...)
	packet = append(packet, content...)
	return packet, nil
''','''	n := 12 + len(headerBuf) + len(bodyBuf)
	binary.BigEndian.PutUint32(lengthBuf, uint32(n))
	out := packBuffers.Get().(*bytes.Buffer)
	defer packBuffers.Put(out)
	out.Reset()
	for _, part := range [][]byte{lengthBuf, messageIDBuf, headerLengthBuf, bodyLengthBuf, headerBuf, bodyBuf} {
		out.Write(part)
	}
	return append(make([]byte, 0, out.Len()), out.Bytes()...), nil
'''),('packx.go','''func readUntil(''','''var packBuffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func readUntil('''),('packx.go','''import (
''','''import (
	"bytes"
	"sync"
''')],'pack through pooled buffers, copied out')
ref('poolkeys',[('tcpx.go','''		for username, ctx := range tcpx.pool.clients() {
			ctx.CloseConn()
			tcpx.pool.offlineConn(username, ctx)
		}
''','''		var wg sync.WaitGroup
		for username, ctx := range tcpx.pool.clients() {
			wg.Add(1)
			go func(username string, ctx *Context) {
				defer wg.Done()
				ctx.CloseConn()
				tcpx.pool.offlineConn(username, ctx)
			}(username, ctx)
		}
		wg.Wait()
'''),('context.go','''	anotherCtx := ctx.poolRef.GetClientPool(username)
	if anotherCtx == nil || anotherCtx.IsOffline() {
		return errors.New(fmt.Sprintf("username '%s' not found in pool, he/she might get offine", username))
	}
	return ctx.SendToConn(anotherCtx, messageID, src, headers...)
''','''	if to := ctx.poolRef.GetClientPool(username); to.IsOnline() {
		return ctx.SendToConn(to, messageID, src, headers...)
	}
	return fmt.Errorf("username '%s' not found in pool, he/she might get offine", username)
''')],'close in parallel')
