"""Behaviour-preserving rewrites of the routers, the application and the builders."""

I = "router/inbuilt/inbuilt.go"

def add(ref):
    D = ["C28", "C29"]
    ref("disp-helper", (I, '''	var methodsMap types.MethodsMap

	if r.isStatic {
		endpoint, found := r.routesMap[request.Path]
		if !found {
			return r.onError(request, status.ErrNotFound)
		}

		methodsMap = endpoint.methodsMap
		request.Env.AllowedMethods = endpoint.allow
	} else {
		endpoint := r.tree.Match(request.Path, request.Params)
		if endpoint == nil {
			return r.onError(request, status.ErrNotFound)
		}

		methodsMap = endpoint.MethodsMap
		request.Env.AllowedMethods = endpoint.Allow
	}

	handler := getHandler(request.Method, methodsMap)
''', '''	methodsMap, allow, found := r.lookup(request)
	if !found {
		return r.onError(request, status.ErrNotFound)
	}

	request.Env.AllowedMethods = allow
	handler := getHandler(request.Method, methodsMap)
'''), (I, "// OnError uses", '''func (r *runtimeRouter) lookup(request *http.Request) (m types.MethodsMap, allow string, found bool) {
	if r.isStatic {
		endpoint, ok := r.routesMap[request.Path]
		return endpoint.methodsMap, endpoint.allow, ok
	}

	endpoint := r.tree.Match(request.Path, request.Params)
	if endpoint == nil {
		return m, "", false
	}

	return endpoint.MethodsMap, endpoint.Allow, true
}

// OnError uses'''), props=D)
    ref("disp-direct-index", (I, '''		methodsMap = endpoint.methodsMap
		request.Env.AllowedMethods = endpoint.allow
''', '''		request.Env.AllowedMethods = endpoint.allow

		return r.handle(request, &endpoint.methodsMap)
'''), (I, '''		methodsMap = endpoint.MethodsMap
		request.Env.AllowedMethods = endpoint.Allow
	}

	handler := getHandler(request.Method, methodsMap)
''', '''		request.Env.AllowedMethods = endpoint.Allow

		return r.handle(request, &endpoint.MethodsMap)
	}
}

func (r *runtimeRouter) handle(request *http.Request, methodsMap *types.MethodsMap) *http.Response {
	handler := methodsMap[request.Method]
	if handler == nil && request.Method == method.HEAD {
		handler = methodsMap[method.GET]
	}

'''), (I, "	var methodsMap types.MethodsMap\n\n", ""), (I, '''func getHandler(reqMethod method.Method, methodsMap types.MethodsMap) Handler {
	handler := methodsMap[reqMethod]
	if handler == nil && reqMethod == method.HEAD {
		return getHandler(method.GET, methodsMap)
	}

	return handler
}
''', ""), props=D)
    ref("disp-catch-helper", (I, '''		for _, catcher := range r.catchers {
			if strings.HasPrefix(request.Path, catcher.Prefix) {
				return catcher.Handler(request)
			}
		}
''', '''		if catcher := r.catch(request.Path); catcher != nil {
			return catcher(request)
		}
'''), (I, "func (r *runtimeRouter) runMutators", '''func (r *runtimeRouter) catch(path string) Handler {
	for i := 0; i < len(r.catchers); i++ {
		if strings.HasPrefix(path, r.catchers[i].Prefix) {
			return r.catchers[i].Handler
		}
	}

	return nil
}

func (r *runtimeRouter) runMutators'''), props=D)
    ref("disp-catch-index", (I, '''		for _, catcher := range r.catchers {
			if strings.HasPrefix(request.Path, catcher.Prefix) {
				return catcher.Handler(request)
			}
		}
''', '''		for i := 0; i < len(r.catchers); i++ {
			catcher := &r.catchers[i]
			if !strings.HasPrefix(request.Path, catcher.Prefix) {
				continue
			}

			return catcher.Handler(request)
		}
'''), props=D)
    ref("disp-error-switch", (I, '''	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
	}

	if err == status.ErrNotFound {
		for''', '''	switch err {
	case status.ErrMethodNotAllowed:
		if request.Method == method.TRACE {
			return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
		}
	case status.ErrNotFound:
		for'''), (I, '''	httpErr, ok := err.(status.HTTPError)
	if !ok {
		return http.Code(request, status.InternalServerError)
	}

	handler := r.retrieveErrorHandler(httpErr.Code)
	if handler == nil {
		// not using http.Error(request, err) in performance purposes, as in this case
		// it would try under the hood to unwrap the error again, however we did this already
		return request.Respond().
			Code(httpErr.Code).
			String(httpErr.Message)
	}

	request.Env.Error = err

	return handler(request)
''', '''	switch e := err.(type) {
	case status.HTTPError:
		if handler := r.retrieveErrorHandler(e.Code); handler != nil {
			request.Env.Error = err

			return handler(request)
		}

		return request.Respond().String(e.Message).Code(e.Code)
	default:
		return http.Code(request, status.InternalServerError)
	}
'''), props=D)
    ref("disp-mutators-index", (I, '''	for _, mutator := range r.mutators {
		mutator(request)
	}
''', '''	if len(r.mutators) == 0 {
		return
	}

	for i := 0; i < len(r.mutators); i++ {
		r.mutators[i](request)
	}
'''), props=D)
    ref("disp-retrieve", (I, '''	handler, found := r.errHandlers[code]
	if !found {
		return r.errHandlers[AllErrors]
	}

	return handler
''', '''	if handler, found := r.errHandlers[code]; found {
		return handler
	}

	return r.errHandlers[AllErrors]
'''), props=D)
    ref("disp-trace-inline", ("router/inbuilt/trace.go", '''	for _, pair := range hdrs.Unwrap() {
		buff = append(append(buff, pair.Key...), ": "...)
		buff = append(append(buff, pair.Value...), "\\r\\n"...)
	}

	return buff
''', '''	pairs := hdrs.Unwrap()
	for i := range pairs {
		buff = append(buff, pairs[i].Key...)
		buff = append(buff, ':', ' ')
		buff = append(buff, pairs[i].Value...)
		buff = append(buff, '\\r', '\\n')
	}

	return buff
'''), props=D)

    G, GR, MW, CA, RO, TY = ("router/inbuilt/" + x + ".go" for x in ("registrar", "groups", "middlewares", "catchers", "route", "types"))
    P = ["C28", "C29", "C30", "C31"]
    ref("reg-add-ok", (G, '''	methodsMap := r.routes[path]
	if methodsMap == nil {
		methodsMap = make(map[method.Method]Handler)
	}

	if _, ok := methodsMap[m]; ok {
		return fmt.Errorf("route already registered: %s %s", m, path)
	}

	methodsMap[m] = handler
	r.routes[path] = methodsMap
	r.isDynamic = r.isDynamic || !radix.MustParse(path).IsStatic()
''', '''	if _, ok := r.routes[path][m]; ok {
		return fmt.Errorf("route already registered: %s %s", m, path)
	}

	if _, ok := r.routes[path]; !ok {
		r.routes[path] = make(map[method.Method]Handler)
	}

	r.routes[path][m] = handler
	if !radix.MustParse(path).IsStatic() {
		r.isDynamic = true
	}
'''), props=P)
    ref("reg-merge-helper", (G, '''	for path, v := range another.routes {
		for method_, handler := range v {
			if r.routes[path] == nil {
				r.routes[path] = make(map[method.Method]Handler)
			}

			if r.routes[path][method_] != nil {
				return fmt.Errorf("route already registered: %s %s", method_.String(), path)
			}

			r.routes[path][method_] = handler
		}
	}

	return nil
}
''', '''	for path, v := range another.routes {
		for method_, handler := range v {
			if !r.put(path, method_, handler) {
				return fmt.Errorf("route already registered: %s %s", method_.String(), path)
			}
		}
	}

	return nil
}

func (r *registrar) put(path string, m method.Method, handler Handler) bool {
	routes := r.routes[path]
	if routes == nil {
		routes = make(map[method.Method]Handler)
		r.routes[path] = routes
	}

	if routes[m] != nil {
		return false
	}

	routes[m] = handler
	return true
}
'''), props=P)
    ref("reg-merge-if", (G, '''	r.isDynamic = r.isDynamic || another.isDynamic
''', '''	if another.isDynamic {
		r.isDynamic = true
	}
'''), props=P)
    ref("mw-compose-local", (MW, '''		handler = func(handler Handler, middleware Middleware) Handler {
			return func(request *http.Request) *http.Response {
				return middleware(handler, request)
			}
		}(handler, middlewares[i])
	}
''', '''		handler = wrap(handler, middlewares[i])
	}
'''), (MW, "func compose(", '''func wrap(next Handler, middleware Middleware) Handler {
	return func(request *http.Request) *http.Response {
		return middleware(next, request)
	}
}

func compose('''), props=P)
    ref("mw-compose-len", (MW, "	for i := len(middlewares) - 1; i >= 0; i-- {", "	for i := len(middlewares); i > 0; i-- {"), (MW, "middlewares[i])", "middlewares[i-1])"), props=P)
    ref("mw-prepare-inline", (GR, '''	r.applyMiddlewares()
	r.applyCatchersMiddlewares()

	return nil
''', '''	for i, catcher := range r.catchers {
		r.catchers[i].Handler = compose(catcher.Handler, r.middlewares)
	}

	r.registrar.Apply(func(handler Handler) Handler {
		return compose(handler, r.middlewares)
	})

	return nil
'''), props=P)
    ref("reg-allow-continue", (TY, '''		if handler == nil {
			continue
		}

		allowed += method.Method(i).String() + ","
	}

	return strings.TrimRight(allowed, ",")
''', '''		if handler != nil {
			allowed += "," + method.Method(i).String()
		}
	}

	return strings.TrimPrefix(allowed, ",")
'''), props=P)
    ref("reg-routeerror", (RO, '''	if len(codes) == 0 {
		codes = append(codes, AllErrors)
	}

	for _, code := range codes {
		r.errHandlers[code] = handler
	}

	return r
''', '''	if len(codes) == 0 {
		r.errHandlers[AllErrors] = handler
		return r
	}

	for i := range codes {
		r.errHandlers[codes[i]] = handler
	}

	return r
'''), props=P)

    RX = "router/inbuilt/internal/radix/"
    P = ["C32", "C28", "C29", "C30"]
    ref("radix-lookup-shared", (RX+"tree.go", """	// manually inlined arrMap.Lookup(segment)
	if !node.statics.arrOverflow {
		for _, entry := range node.statics.arr {
			if entry.Key == segment {
				return entry.Node, true
			}
		}
	} else if n := node.statics.m[segment]; n != nil {
		return n, true
	}
""", """	if n := node.statics.Lookup(segment); n != nil {
		return n, true
	}
"""), props=P)
    ref("radix-insert-loop", (RX+"tree.go", """	node := newNode(nil, false, "")
	n.statics.Add(segment.Payload, node)

	return node.insertRecursively(segments[1:], payload)
""", """	child := n.addStatic(segment.Payload)

	return child.insertRecursively(segments[1:], payload)
"""), (RX+"tree.go", """func (n *Node) Match(""", """func (n *Node) addStatic(key string) *Node {
	child := newNode(nil, false, "")
	n.statics.Add(key, child)

	return child
}

func (n *Node) Match("""), props=P)
    ref("radix-match-cut", (RX+"tree.go", """		slash := strings.IndexByte(path, '/')
		var segment string
		if slash == -1 {
			segment, path = path, ""
		} else {
			segment, path = path[:slash], path[slash+1:]
		}

		next, ok := processSegment(params, segment, node)
""", """		var segment string
		segment, path = cutSegment(path)

		next, ok := processSegment(params, segment, node)
"""), (RX+"tree.go", """func processSegment(""", """func cutSegment(path string) (segment, rest string) {
	if slash := strings.IndexByte(path, '/'); slash != -1 {
		return path[:slash], path[slash+1:]
	}

	return path, ""
}

func processSegment("""), props=P)
    ref("radix-add-order", (RX+"arrmap.go", """	if a.arrOverflow {
		a.m[key] = node
		return
	}

	if len(a.arr)+1 > loadfactor {
		a.arrOverflow = true
		a.escapeToMap()
		a.m[key] = node
		return
	}

	a.arr = append(a.arr, segmentEntry{key, node})
""", """	if !a.arrOverflow {
		if len(a.arr) < loadfactor {
			a.arr = append(a.arr, segmentEntry{Key: key, Node: node})
			return
		}

		a.escapeToMap()
		a.arrOverflow = true
	}

	a.m[key] = node
"""), props=P)
    ref("radix-static-index", (RX+"template.go", """	for _, segment := range t.segments {
		if segment.IsWildcard {
			return false
		}
	}

	return true
""", """	static := true

	for i := range t.segments {
		if t.segments[i].IsWildcard {
			static = false
			break
		}
	}

	return static
"""), props=P)
    ref("radix-parse-helper", (RX+"template.go", """				template.segments = append(template.segments, Segment{
					IsWildcard: false,
					Payload:    tmpl[offset:i],
				})
				offset = i + 1
				state = eSlash
			case '{':""", """				template.add(tmpl[offset:i], false)
				offset = i + 1
				state = eSlash
			case '{':"""), (RX+"template.go", """func MustParse(""", """func (t *Template) add(text string, wildcard bool) {
	t.segments = append(t.segments, Segment{Payload: text, IsWildcard: wildcard})
}

func MustParse("""), props=P)

    ST = "router/inbuilt/static.go"
    P = ["C33", "C28", "C30", "C31"]
    ref("static-concat", (ST, """		// requests are processed simultaneously, so each of them requires its own buffer
		pathReplacer := *pathReplacer
		pathReplacer.Set(request.Path)
		path := pathReplacer.Relative()
		if !isSafe(request.Path) {
			return http.Error(request, status.ErrNotFound)
		}

		return request.Respond().File(path)
""", """		if !isSafe(request.Path) {
			return http.Error(request, status.ErrNotFound)
		}

		return request.Respond().File(dir + request.Path[len(fullPrefix):])
"""), (ST, """	pathReplacer := pathlib.NewPath(fullPrefix, root)
""", """	dir := strings.TrimSuffix(root, "/") + "/"
"""), (ST, """	"github.com/indigo-web/indigo/internal/pathlib"
""", ""), props=P)
    ref("static-contains", (ST, """	for len(path) > 0 {
		dot := strings.IndexByte(path, '.')
		if dot == -1 {
			return true
		}

		if dot < len(path)-1 && path[dot+1] == '.' {
			return false
		}

		path = path[dot+1:]
	}

	return true
""", """	return !strings.Contains(path, "..")
"""), props=P)
    ref("static-index-loop", (ST, """	for len(path) > 0 {
		dot := strings.IndexByte(path, '.')
		if dot == -1 {
			return true
		}

		if dot < len(path)-1 && path[dot+1] == '.' {
			return false
		}

		path = path[dot+1:]
	}

	return true
""", """	for i := 0; i+1 < len(path); i++ {
		if path[i] == '.' && path[i+1] == '.' {
			return false
		}
	}

	return true
"""), props=P)
    ref("static-handler-extracted", (ST, """	return r.Catch(prefix, func(request *http.Request) *http.Response {
		if !strings.HasPrefix(request.Path, fullPrefix) {
			return http.Error(request, status.ErrNotFound)
		}

		// requests are processed simultaneously, so each of them requires its own buffer
		pathReplacer := *pathReplacer
		pathReplacer.Set(request.Path)
		path := pathReplacer.Relative()
		if !isSafe(request.Path) {
			return http.Error(request, status.ErrNotFound)
		}

		return request.Respond().File(path)
	}, mwares...)
}
""", """	return r.Catch(prefix, func(request *http.Request) *http.Response {
		return serveFile(request, fullPrefix, *pathReplacer)
	}, mwares...)
}

func serveFile(request *http.Request, prefix string, file pathlib.Path) *http.Response {
	if !strings.HasPrefix(request.Path, prefix) || !isSafe(request.Path) {
		return http.Error(request, status.ErrNotFound)
	}

	file.Set(request.Path)

	return request.Respond().File(file.Relative())
}
"""), props=P)
    ref("static-skip-two", (ST, """		if dot < len(path)-1 && path[dot+1] == '.' {
			return false
		}

		path = path[dot+1:]
""", """		if dot == len(path)-1 {
			return true
		}

		if path[dot+1] == '.' {
			return false
		}

		path = path[dot+2:]
"""), props=P)

    VT = "router/virtual/virtual.go"
    P = ["C34", "C28"]
    ref("virtual-if-chain", (VT, """	switch len(hosts) {
	case 0:
		return r.defaultRouter, http.Code(request, status.BadRequest)
	case 1:
	default:
		return nil, http.Code(request, status.BadRequest)
	}

	host := domain.Normalize(hosts[0])

	for _, virtRouter := range r.routers {
		if strcomp.EqualFold(virtRouter.Domain, host) {
			return virtRouter.Router, nil
		}
	}

	return r.defaultRouter, http.Code(request, status.MisdirectedRequest)
""", """	if len(hosts) == 0 {
		return r.defaultRouter, http.Code(request, status.BadRequest)
	}

	if len(hosts) > 1 {
		return nil, http.Code(request, status.BadRequest)
	}

	if virt := r.find(domain.Normalize(hosts[0])); virt != nil {
		return virt.Router, nil
	}

	return r.defaultRouter, http.Code(request, status.MisdirectedRequest)
}

func (r *runtimeRouter) find(host string) *virtualRouter {
	for i := range r.routers {
		if strcomp.EqualFold(host, r.routers[i].Domain) {
			return &r.routers[i]
		}
	}

	return nil
"""), props=P)
    ref("virtual-init-append", (VT, """	routers := make([]virtualRouter, len(r.routers))
	for i, fabric := range r.routers {
		routers[i] = virtualRouter{
			Domain: fabric.Domain,
			Router: fabric.Router.Initialize(),
		}
	}
""", """	routers := make([]virtualRouter, 0, len(r.routers))
	for _, fabric := range r.routers {
		routers = append(routers, virtualRouter{
			Domain: fabric.Domain,
			Router: fabric.Router.Initialize(),
		})
	}
"""), props=P)
    ref("virtual-default-inline", (VT, """		return r.Default(other)
	}
""", """		r.defaultRouter = other
		return r
	}
"""), props=P)
    ref("virtual-handler-order", (VT, """	virtRouter, resp := r.getRouter(request)
	if virtRouter == nil {
		return resp
	}

	return virtRouter.OnRequest(request)
""", """	if virtRouter, resp := r.getRouter(request); virtRouter != nil {
		return virtRouter.OnRequest(request)
	} else {
		return resp
	}
"""), props=P)

    AP = "indi.go"
    P = ["C35", "C02"]
    ref("app-run-helper", (AP, """		go func(server *tcp.Server) {
			err := server.Start()

			select {
			case a.errCh <- err:
			case <-stopped:
			}
		}(server)
	}
""", """		go a.start(server, stopped)
	}
"""), (AP, "// GracefulStop stops accepting", """func (a *App) start(server *tcp.Server, stopped <-chan struct{}) {
	err := server.Start()

	select {
	case <-stopped:
	case a.errCh <- err:
	}
}

// GracefulStop stops accepting"""), props=P)
    ref("app-bind-index", (AP, """	for _, src := range a.sources {
		src := src
		listener, err := src.Listen("tcp", src.Addr)
""", """	for i := range a.sources {
		src := a.sources[i]
		listener, err := src.Listen("tcp", src.Addr)
"""), props=P)
    ref("app-bind-handler-var", (AP, """		if src.Handler == nil {
			src.Handler = a.newHTTPHandler(encryption.Plain)
		}

		if a.hooks.OnBind != nil {
			a.hooks.OnBind(src.Addr)
		}

		servers = append(servers, tcp.NewServer(listener, func(conn net.Conn) {
			src.Handler(conn, r)
		}))
""", """		if onBind := a.hooks.OnBind; onBind != nil {
			onBind(src.Addr)
		}

		servers = append(servers, tcp.NewServer(listener, a.connHandler(src.Handler, r)))
"""), (AP, "// GracefulStop stops accepting", """func (a *App) connHandler(handler listenerHandler, r router.Router) func(conn net.Conn) {
	if handler == nil {
		handler = a.newHTTPHandler(encryption.Plain)
	}

	return func(conn net.Conn) {
		handler(conn, r)
	}
}

// GracefulStop stops accepting"""), props=P)
    ref("app-stop-switch", (AP, """	if err == status.ErrGracefulShutdown {
		// stop listening to new clients and process till the end all the old ones
		tcp.PauseAll(servers)
	}

	tcp.StopAll(servers)
	callIfNotNil(a.hooks.OnStop)
""", """	switch err {
	case status.ErrGracefulShutdown:
		// stop listening to new clients and process till the end all the old ones
		tcp.PauseAll(servers)
	}

	tcp.StopAll(servers)
	if stop := a.hooks.OnStop; stop != nil {
		stop()
	}
"""), props=P)
    ref("app-listen-literal", (AP, """	listener := optional(optListener, Listener{})
	if listener.Listen == nil {
		listener.Listen = net.Listen
	}

	a.sources = append(a.sources, source{
		Addr:     addr,
		Listener: listener,
	})
	return a
""", """	src := source{Addr: addr}
	if len(optListener) > 0 {
		src.Listener = optListener[0]
	}

	if src.Listen == nil {
		src.Listen = net.Listen
	}

	a.sources = append(a.sources, src)
	return a
"""), props=P)
    ref("app-auto-switch", (AP, """	if address.IsLocalhost(addr) || address.IsIP(addr) {
		cert, key, err := generateSelfSignedCert()
		if err != nil {
			log.Printf(
				"WARNING: AutoHTTPS(...): can't generate self-signed certificate: %s. Disabling TLS",
				err,
			)

			return a
		}

		return a.HTTPS(addr, cert, key)
	}

	return a.Listen(addr, Listener{
		Listen:  autoTLSListener(domains...),
		Handler: a.newHTTPHandler(encryption.TLS),
	})
""", """	if !address.IsLocalhost(addr) && !address.IsIP(addr) {
		listener := Listener{
			Listen:  autoTLSListener(domains...),
			Handler: a.newHTTPHandler(encryption.TLS),
		}

		return a.Listen(addr, listener)
	}

	cert, key, err := generateSelfSignedCert()
	if err == nil {
		return a.HTTPS(addr, cert, key)
	}

	log.Printf(
		"WARNING: AutoHTTPS(...): can't generate self-signed certificate: %s. Disabling TLS",
		err,
	)

	return a
"""), props=P)
    ref("app-keys-helper", ("https.go", """	keyFile, err := os.OpenFile(keyFilename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return "", "", err
	}
	defer keyFile.Close()

	privBytes, err := x509.MarshalPKCS8PrivateKey(priv)
	if err != nil {
		return "", "", err
	}

	err = pem.Encode(keyFile, &pem.Block{Type: "PRIVATE KEY", Bytes: privBytes})
	if err != nil {
		return "", "", err
	}

	return certFilename, keyFilename, nil
}
""", """	if err := writeKey(keyFilename, priv); err != nil {
		return "", "", err
	}

	return certFilename, keyFilename, nil
}

func writeKey(filename string, priv *rsa.PrivateKey) error {
	privBytes, err := x509.MarshalPKCS8PrivateKey(priv)
	if err != nil {
		return err
	}

	keyFile, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return err
	}
	defer keyFile.Close()

	return pem.Encode(keyFile, &pem.Block{Type: "PRIVATE KEY", Bytes: privBytes})
}
"""), props=P)

    P = ["C36", "C37", "C19", "C22"]
    ref("clear-reordered", ("http/request.go", """	r.Method = method.Unknown
	r.Path = ""
	r.Proto = proto.HTTP11
	r.Query.Set(nil)
	r.Params.Clear()
	r.Headers.Clear()
	r.ContentLength = 0
	r.Encoding = Encoding{}
	r.ContentType = ""
	r.Connection = ""
	r.Upgrade = proto.Unknown
	r.Ctx = zeroContext
	r.Env = Environment{Encryption: r.Env.Encryption}

	return nil
""", """	r.clearLine()
	r.clearHeaders()
	r.Env.Error = nil
	r.Env.AllowedMethods = ""
	r.Env.AliasFrom = ""
	r.Ctx = zeroContext

	return nil
"""), ("http/request.go", "// TODO: implement FormData parsing", """func (r *Request) clearLine() {
	r.Method, r.Path, r.Proto = method.Unknown, "", proto.HTTP11
	r.Query.Set(nil)
	r.Params.Clear()
}

func (r *Request) clearHeaders() {
	r.Headers.Clear()
	r.Encoding = Encoding{}
	r.ContentLength = 0
	r.ContentType, r.Connection = "", ""
	r.Upgrade = proto.Unknown
}

// TODO: implement FormData parsing"""), props=P)
    ref("fields-literal", ("internal/response/fields.go", """	f.Code = status.OK
	f.Status = ""
	f.ContentType = DefaultContentType
	f.TransferEncoding = ""
	f.Headers = f.Headers[:0]
	f.Body = nil
	f.Cookies = f.Cookies[:0]
	f.Attachment = types.Attachment{}
""", """	*f = Fields{
		Code:        status.OK,
		ContentType: DefaultContentType,
		Headers:     f.Headers[:0],
		Cookies:     f.Cookies[:0],
	}
"""), props=P)
    ref("serve-inline", ("http/serve/http1.go", """	suit := http1.Initialize(cfg, r, client, request)
	suit.Serve()
""", """	http1.Initialize(cfg, r, client, request).Serve()
"""), ("internal/construct/constructors.go", """	hdrs := headers.NewPrealloc(cfg.Headers.Number.Default)
	q := query.New(keyvalue.NewPreAlloc(cfg.URL.Query.PreAlloc))
	resp := http.NewResponse()
	params := keyvalue.New()

	return http.NewRequest(cfg, hdrs, q, resp, client, body, params)
""", """	return http.NewRequest(
		cfg, headers.NewPrealloc(cfg.Headers.Number.Default),
		query.New(keyvalue.NewPreAlloc(cfg.URL.Query.PreAlloc)),
		http.NewResponse(), client, body, keyvalue.New(),
	)
"""), props=P)
    ref("suit-fields", ("internal/protocol/http1/suit.go", """	keyBuff, valBuff, startLineBuff := construct.Buffers(cfg)
	respBuff := make([]byte, 0, cfg.HTTP.ResponseBuffSize)

	return New(
		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
	)
""", """	hdrs, http := cfg.Headers, cfg.HTTP
	respBuff := make([]byte, 0, http.ResponseBuffSize)
	keyBuff, valBuff, startLineBuff := construct.Buffers(cfg)

	return New(
		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
		respBuff, http.FileBuffSize, hdrs.Default,
	)
"""), props=P)

    RS = "http/response.go"
    P = ["C38", "C39", "C36", "C28", "C33"]
    ref("build-error-switch", (RS, """	if err == nil {
		return r
	}

	if http, ok := err.(status.HTTPError); ok {
		return r.Code(http.Code)
	}

	c := status.InternalServerError
	if len(code) > 0 {
		// peek the first, ignore the rest
		c = code[0]
	}

	return r.
		Code(c).
		String(err.Error())
""", """	switch e := err.(type) {
	case nil:
		return r
	case status.HTTPError:
		r.fields.Code = e.Code
		return r
	}

	if len(code) == 0 {
		code = []status.Code{status.InternalServerError}
	}

	return r.String(err.Error()).Code(code[0])
"""), props=P)
    ref("build-header-if", (RS, """	switch {
	case len(values) == 0:
		return r
	case strcomp.EqualFold(key, "content-type"):
		return r.ContentType(values[0])
	case strcomp.EqualFold(key, "transfer-encoding"):
		return r.TransferEncoding(values[0])
	}

	for i := range values {
		r.fields.Headers = append(r.fields.Headers, headers.Header{
			Key:   key,
			Value: values[i],
		})
	}

	return r
""", """	if len(values) == 0 {
		return r
	}

	if strcomp.EqualFold(key, "transfer-encoding") {
		r.fields.TransferEncoding = values[0]
		return r
	}

	if strcomp.EqualFold(key, "content-type") {
		r.fields.ContentType = values[0]
		return r
	}

	hdrs := r.fields.Headers
	for _, value := range values {
		hdrs = append(hdrs, headers.Header{Key: key, Value: value})
	}

	r.fields.Headers = hdrs
	return r
"""), props=P)
    ref("build-headers-direct", (RS, """	resp := r

	for k, v := range headers {
		resp = resp.Header(k, v...)
	}

	return resp
""", """	for k, v := range headers {
		r.Header(k, v...)
	}

	return r
"""), props=P)
    ref("build-file-defer", (RS, """	stat, err := fd.Stat()
	if err != nil {
		// ...and if we can't get stats on it, it exists, however something in system went wrong
		_ = fd.Close()
		return r, status.ErrInternalServerError
	}
	if stat.IsDir() {
		_ = fd.Close()
		return r, status.ErrNotFound
	}

	r.fields.ContentType = mime.Extension[filepath.Ext(path)]
	if len(r.fields.ContentType) == 0 {
		r.fields.ContentType = defaultFileMIME
	}

	return r.Attachment(fd, int(stat.Size())), nil
""", """	size, err := regularSize(fd)
	if err != nil {
		_ = fd.Close()
		return r, err
	}

	contentType, known := mime.Extension[filepath.Ext(path)]
	if !known {
		contentType = defaultFileMIME
	}

	return r.ContentType(contentType).Attachment(fd, size), nil
"""), (RS, "// File opens a file for reading and returns", """func regularSize(fd *os.File) (int, error) {
	stat, err := fd.Stat()

	switch {
	case err != nil:
		return 0, status.ErrInternalServerError
	case stat.IsDir():
		return 0, status.ErrNotFound
	default:
		return int(stat.Size()), nil
	}
}

// File opens a file for reading and returns"""), props=P)
    ref("build-json-chain", (RS, """	resp, err := r.TryJSON(model)
	if err != nil {
		return r.Error(err)
	}

	return resp
""", """	resp, err := r.TryJSON(model)

	return resp.Error(err)
"""), props=P)

    P = ["C40"]
    VA = "http/headers/valueaccessors.go"
    ref("params-cut", (VA, """	if index := strings.Index(str, substr); index != -1 {
		valOffset := index + len(substr)

		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
	}

	return or
""", """	_, tail, found := strings.Cut(str, substr)
	if !found {
		return or
	}

	value, _, _ := strings.Cut(tail, ";")

	return value
"""), (VA, """func getParamEnd(str string) int {
	if index := strings.IndexByte(str, ';'); index != -1 {
		return index
	}

	return len(str)
}
""", ""), props=P)
    ref("params-scan", (VA, """	if index := strings.IndexByte(str, ';'); index != -1 {
		return index
	}

	return len(str)
""", """	for i := 0; i < len(str); i++ {
		if str[i] == ';' {
			return i
		}
	}

	return len(str)
"""), (VA, """		valOffset := index + len(substr)

		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
""", """		str = str[index+len(substr):]

		return str[:getParamEnd(str)]
"""), props=P)
    ref("params-early", (VA, """	if index := strings.IndexByte(str, ';'); index != -1 {
		return str[:index]
	}

	return str
}

// QualityOf""", """	return str[:getParamEnd(str)]
}

// QualityOf"""), (VA, """	q, err := strconv.Atoi(getParam(str, qualitySubstr, "9"))
	if err != nil {
		return 9
	}

	return q
""", """	raw := getParam(str, qualitySubstr, "9")
	if q, err := strconv.Atoi(raw); err == nil {
		return q
	}

	return 9
"""), (VA, """	return ParamOfOr(str, key, "")
""", """	return getParam(str, ";"+key+"=", "")
"""), props=P)

    P = ["C41", "C42", "C36"]
    RQF, CK = "http/request.go", "http/cookie/cookie.go"
    ref("req-cookies", (RQF, """	if r.jar == nil {
		r.jar = cookie.NewJarPreAlloc(r.cfg.Headers.CookiesPreAllocate)
	}

	r.jar.Clear()
""", """	jar := r.emptyJar()
"""), (RQF, """	for _, value := range r.Headers.Values("cookie") {
		if err := cookie.Parse(r.jar, value); err != nil {
			return nil, err
		}
	}

	return r.jar, nil
}
""", """	values := r.Headers.Values("Cookie")
	for i := 0; i < len(values); i++ {
		err := cookie.Parse(jar, values[i])
		if err != nil {
			return nil, err
		}
	}

	return jar, nil
}

func (r *Request) emptyJar() cookie.Jar {
	if r.jar != nil {
		r.jar.Clear()
		return r.jar
	}

	r.jar = cookie.NewJarPreAlloc(r.cfg.Headers.CookiesPreAllocate)

	return r.jar
}
"""), props=P)
    ref("req-json", (RQF, """	if len(r.ContentType) > 0 && r.ContentType != mime.JSON {
		return status.ErrUnsupportedMediaType
	}
""", """	switch r.ContentType {
	case "", mime.JSON:
	default:
		return status.ErrUnsupportedMediaType
	}
"""), (RQF, """	iterator := json.ConfigDefault.BorrowIterator(data)
	iterator.ReadVal(model)
	err = iterator.Error
	json.ConfigDefault.ReturnIterator(iterator)

	return err
""", """	iterator := json.ConfigDefault.BorrowIterator(data)
	defer json.ConfigDefault.ReturnIterator(iterator)
	iterator.ReadVal(model)

	return iterator.Error
"""), props=P)
    ref("req-hijack", (RQF, """	if err := r.Body.Discard(); err != nil {
		return nil, err
	}

	r.wasHijacked = true

	return r.client, nil
""", """	err := r.Body.Discard()
	if err == nil {
		r.wasHijacked = true
		return r.client, nil
	}

	return nil, err
"""), ("http/encoding.go", "	return len(e.Transfer) == 0 && len(e.Content) == 0", "	return len(e.Transfer)+len(e.Content) == 0"), props=P)
    ref("cookie-build", (CK, "	return Builder{New(name, value)}", "	var b Builder\n	b.cookie.Name, b.cookie.Value = name, value\n\n	return b"), (CK, """func (b Builder) Path(path string) Builder {
	b.cookie.Path = path
	return b
}
""", """func (b Builder) Path(path string) Builder {
	return b.with(func(c *Cookie) { c.Path = path })
}

func (b Builder) with(set func(c *Cookie)) Builder {
	cookie := b.cookie
	set(&cookie)

	return Builder{cookie: cookie}
}
"""), props=P)

    P = ["C43", "C44"]
    PA = "http/path.go"
    BODY = """	for i := 0; i < len(p); i++ {
		if !isASCIIPrintable(p[i]) {
			if buff == nil {
				buff = allocBuff(len(p))
			}

			buff = append(buff, p[offset:i]...)
			escaped := escapeByte(p[i])
			buff = append(buff, '\\\\', escaped)
			offset = i + 1
		}
	}

	if len(buff) == 0 {
		return p
	}

	return uf.B2S(append(buff, p[offset:]...))
"""
    ref("escape-continue", (PA, BODY, """	for i := 0; i < len(p); i++ {
		char := p[i]
		if isASCIIPrintable(char) {
			continue
		}

		if buff == nil {
			buff = allocBuff(len(p))
		}

		buff = append(buff, p[offset:i]...)
		buff = append(buff, '\\\\')
		buff = append(buff, escapeByte(char))
		offset = i + 1
	}

	if offset == 0 {
		return p
	}

	buff = append(buff, p[offset:]...)

	return uf.B2S(buff)
"""), props=P)
    ref("escape-bytewise", (PA, """	var (
		buff   []byte
		offset int
	)

""" + BODY, """	buff := allocBuff(len(p))

	for i := 0; i < len(p); i++ {
		if isASCIIPrintable(p[i]) {
			buff = append(buff, p[i])
		} else {
			buff = append(buff, '\\\\', escapeByte(p[i]))
		}
	}

	return uf.B2S(buff)
"""), props=P)
    ref("escape-builder", (PA, """	var (
		buff   []byte
		offset int
	)

""" + BODY, """	var buff strings.Builder
	offset := 0

	for i := range []byte(p) {
		if isASCIIPrintable(p[i]) {
			continue
		}

		buff.WriteString(p[offset:i])
		buff.WriteByte('\\\\')
		buff.WriteByte(escapeByte(p[i]))
		offset = i + 1
	}

	buff.WriteString(p[offset:])

	return buff.String()
"""), (PA, 'import "github.com/indigo-web/utils/uf"', 'import "strings"'), props=P)
    D = "router/inbuilt/middleware/"
    ref("mw-https", (D + "httpsonly.go", """		host := params.RedirectTo

		if len(host) == 0 {
			host = removePort(request.Headers.Value("host"))
			if len(host) == 0 {
				return request.Respond().
					Code(status.BadRequest).
					String("no Host header")
			}
		}

		host += ":" + params.Port
		if len(request.Env.AliasFrom) > 0 {
			host += escapePath(request.Env.AliasFrom)
		} else {
			host += escapePath(request.Path)
		}

		return request.Respond().
			Code(status.MovedPermanently).
			Header("Location", "https://"+host)
""", """		host := params.RedirectTo
		if host == "" {
			host, _, _ = strings.Cut(request.Headers.Value("Host"), ":")
		}

		if host == "" {
			return http.Code(request, status.BadRequest).String("no Host header")
		}

		requested := request.Path
		if request.Env.AliasFrom != "" {
			requested = request.Env.AliasFrom
		}

		location := "https://" + host + ":" + params.Port + escapePath(requested)

		return http.Respond(request).
			Header("Location", location).
			Code(status.MovedPermanently)
"""), (D + "httpsonly.go", """func removePort(str string) string {
	if colon := strings.IndexByte(str, ':'); colon != -1 {
		return str[:colon]
	}

	return str
}
""", ""), props=P)
    ref("mw-logs", (D + "logging.go", """		response := next(request)
		if response == nil {
			response = http.Respond(request)
		}

		if response.Reveal().Code == status.CloseConnection {
			return response
		}

		for _, logger := range loggers {
			logger.Printf("%s %s %d", request.Method.String(), http.Escape(request.Path), response.Reveal().Code)
		}

		return response
""", """		response := orEmpty(next(request), request)
		code := response.Reveal().Code

		if code != status.CloseConnection {
			path := http.Escape(request.Path)
			for i := range loggers {
				loggers[i].Printf("%s %s %d", request.Method, path, code)
			}
		}

		return response
"""), (D + "logging.go", "func LogRequests(", """func orEmpty(response *http.Response, request *http.Request) *http.Response {
	if response != nil {
		return response
	}

	return request.Respond()
}

func LogRequests("""), (D + "serverheader.go", """		response := next(request)
		if response == nil {
			response = http.Respond(request)
		}

		return response.
			Header("Server", value)
""", """		return orEmpty(next(request), request).Header("Server", value)
"""), (D + "serverheader.go", '	"github.com/indigo-web/indigo/http"\n', '	"github.com/indigo-web/indigo/http"\n'), props=P)
    ref("mw-recover", (D + "recover.go", """	defer func() {
		if r := recover(); r != nil {
			log.Printf("panic: %v\\n", r)
			resp = http.Error(req, status.ErrInternalServerError)
		}
	}()

	resp = next(req)
	return
""", """	defer func() {
		r := recover()
		if r == nil {
			return
		}

		log.Printf("panic: %v\\n", r)
		resp = req.Respond().Code(status.InternalServerError)
	}()

	return next(req)
"""), (D + "redirect.go", """		if request.Path != from {
			return next(request)
		}

		return request.Respond().
			Code(status.TemporaryRedirect).
			Header("Location", to)
""", """		if request.Path == from {
			return http.Code(request, status.TemporaryRedirect).Header("Location", to)
		}

		return next(request)
"""), ("router/inbuilt/mutator/alias.go", """		if request.Path == from {
			request.Path = to
			request.Env.AliasFrom = from
		}
""", """		if request.Path != from {
			return
		}

		request.Path, request.Env.AliasFrom = to, request.Path
"""), props=P)
