EDITS = []
V = "internal/server/server.go"
A = "starbow.go"
D = "demo.go"
def e(name, kind, *eds, **kw):
    EDITS.append(dict(name="process-" + name, kind=kind, props=["C28"] if kind == "bug" else [], edits=list(eds), **kw))

GO = '''	errs := make(chan error, 1)
	go func() {
		errs <- hs.Serve(listener)
	}()

	return s.waitSignal(ch, errs)
'''
NOTIFY = '''	// Signals may arrive at any time from now on so there must be room to hold one
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)

'''
SEL = '''	for {
		select {
		case sig := <-ch:
			switch sig {
			case syscall.SIGINT, syscall.SIGTERM:
				return nil
				// TODO: support HUP to reload config
			}
		case err := <-errs:
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
	}
'''
LISTEN = '''	listener, err := net.Listen(s.Net, s.Addr)
	if err != nil {
		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
	}
'''
WAIT = "	return s.waitSignal(ch, errs)\n"
MAIN = '''	if err := s.Serve(); err != nil {
		log.Fatal(err.Error())
	}
'''
SETUP = '''	if err := setupDemo(s); err != nil {
		log.Fatal(err.Error())
	}
'''
# ---- the same
e("serve-helper", "same", (V, GO, '''	errs := make(chan error, 1)
	go serve(hs, listener, errs)

	return s.waitSignal(ch, errs)
'''), (V, "// contextKey is", '''func serve(hs *http.Server, l net.Listener, errs chan<- error) {
	errs <- hs.Serve(l)
}

// contextKey is'''))
e("start-helper", "same", (V, GO, '''	return s.waitSignal(ch, start(hs, listener))
'''), (V, "// contextKey is", '''func start(hs *http.Server, l net.Listener) <-chan error {
	errs := make(chan error, 1)
	go func() {
		errs <- hs.Serve(l)
	}()
	return errs
}

// contextKey is'''))
e("if-err", "same", (V, "		errs <- hs.Serve(listener)\n", "		if err := hs.Serve(listener); err != nil {\n			errs <- err\n		}\n"))
e("errs-nil", "same", (V, '''			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
''', '''			if err != nil {
				return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
			}
			return nil
		}
'''))
e("inline", "same", (V, WAIT, '''	for {
		select {
		case sig := <-ch:
			if sig == syscall.SIGINT || sig == syscall.SIGTERM {
				return nil
			}
		case err := <-errs:
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
	}
'''), (V, '''// waitSignal blocks waiting for operating system signals or an error that stops the server
func (s *Server) waitSignal(ch <-chan os.Signal, errs <-chan error) error {
''' + SEL + "}\n\n", ""))
e("no-loop", "same", (V, SEL, '''	select {
	case <-ch:
		return nil
	case err := <-errs:
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
'''))
e("loop-out", "same", (V, SEL, '''	done := false
	for !done {
		select {
		case sig := <-ch:
			s.Logger.Printf("received %v", sig)
			done = sig == syscall.SIGTERM || sig == syscall.SIGINT
		case err := <-errs:
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
	}
	return nil
'''))
e("default-case", "same", (V, SEL, '''	for {
		select {
		case err := <-errs:
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		case sig := <-ch:
			switch sig {
			case syscall.SIGHUP:
				s.Logger.Printf("ignored")
				continue
			default:
				return nil
			}
		}
	}
'''))
e("interrupt", "same", (V, "signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "signal.Notify(ch, os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)"), (V, "case syscall.SIGINT, syscall.SIGTERM:", "case os.Interrupt, syscall.SIGTERM:"))
e("slice", "same", (V, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM}\n	signal.Notify(ch, sigs...)"))
e("all", "same", (V, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "	signal.Notify(ch)"))
e("roomier", "same", (V, "make(chan os.Signal, 1)", "make(chan os.Signal, 8)"))
e("two", "same", (V, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "	signal.Notify(ch, syscall.SIGINT)\n	signal.Notify(ch, syscall.SIGTERM)"))
e("stop-later", "same", (V, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n	defer signal.Stop(ch)"))
e("close", "same", (V, WAIT, "	defer hs.Close()\n" + WAIT))
e("close2", "same", (V, WAIT, "	err = s.waitSignal(ch, errs)\n	hs.Close()\n	return err\n"))
e("unbuffered-errs", "same", (V, "make(chan error, 1)", "make(chan error)"))
e("fatalf", "same", (A, MAIN, '''	if err := s.Serve(); err != nil {
		log.Fatalf("starbow: %v", err)
	}
'''))
e("exit", "same", (A, MAIN, '''	if err := s.Serve(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
'''), (A, 'import (\n	"log"\n', 'import (\n	"fmt"\n	"log"\n	"os"\n'))
e("run", "same", (A, SETUP + MAIN, '''	if err := run(s); err != nil {
		log.Fatal(err)
	}
'''), (A, "func main() {", '''func run(s *server.Server) error {
	if err := setupDemo(s); err != nil {
		return err
	}
	return s.Serve()
}

func main() {'''))
e("run-code", "same", (A, SETUP + MAIN, '''	os.Exit(run(s))
'''), (A, "func main() {", '''func run(s *server.Server) int {
	if err := setupDemo(s); err != nil {
		log.Print(err)
		return 1
	}
	if err := s.Serve(); err != nil {
		log.Print(err)
		return 2
	}
	return 0
}

func main() {'''), (A, '	"log"\n', '	"log"\n	"os"\n'))
e("check-helper", "same", (A, SETUP + MAIN, '''	check(setupDemo(s))
	check(s.Serve())
'''), (A, "func main() {", '''func check(err error) {
	if err != nil {
		log.Fatal(err.Error())
	}
}

func main() {'''))
e("panic", "same", (A, SETUP, "	if err := setupDemo(s); err != nil {\n		panic(err)\n	}\n"))
e("fatal-goroutine", "same", (V, GO, '''	go func() {
		log.Fatal(hs.Serve(listener))
	}()

	return s.waitSignal(ch, nil)
'''))
e("done", "same", (V, GO, '''	done := make(chan struct{})
	var failure error
	go func() {
		failure = hs.Serve(listener)
		close(done)
	}()
	return s.waitSignal(ch, done, &failure)
'''), (V, "errs <-chan error) error {", "done <-chan struct{}, failure *error) error {"), (V, "		case err := <-errs:\n			return fmt.Errorf(\"fatal error serving on %s: %v\", s.Addr, err)", "		case <-done:\n			return fmt.Errorf(\"fatal error serving on %s: %v\", s.Addr, *failure)"))
e("server-first", "same", (V, LISTEN, "	var err error\n	var listener net.Listener\n	if listener, err = net.Listen(s.Net, s.Addr); err != nil {\n		return fmt.Errorf(\"fatal error listening on %s: %v\", s.Addr, err)\n	}\n"))
e("notify-helper", "same", (V, NOTIFY, "	ch := notifications()\n\n"), (V, "// contextKey is", '''func notifications() <-chan os.Signal {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
	return ch
}

// contextKey is'''))
e("context", "same", (V, NOTIFY, "	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGINT, syscall.SIGTERM)\n	defer stop()\n"), (V, WAIT, '''	select {
	case <-ctx.Done():
		return nil
	case err := <-errs:
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
'''))
e("notify-first", "same", (V, NOTIFY, ""), (V, '''	if s.Addr == "" {
		s.Addr = ":2525"
	}

	if s.Net''', NOTIFY + '''	if s.Addr == "" {
		s.Addr = ":2525"
	}

	if s.Net'''))
e("demo-loop", "same", (D, '''	err := addDemoCollation(s, collation.Schema{
		Name: "country",''', '''	schemas := []collation.Schema{{
		Name: "country",'''), (D, '''	})
	if err != nil {
		return err
	}

	return addDemoCollation(s, collation.Schema{
		Name: "tz",''', '''	}, {
		Name: "tz",'''), (D, '''				Measures: []collation.Measure{collation.Cardinality{Precision: 8}},
			},
		},
	})
}
''', '''				Measures: []collation.Measure{collation.Cardinality{Precision: 8}},
			},
		},
	}}
	for _, sch := range schemas {
		if err := addDemoCollation(s, sch); err != nil {
			return err
		}
	}
	return nil
}
'''))
e("handlers-void", "same", (V, '''	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}
''', "	s.registerHandlers()\n"), (V, "func (s *Server) registerHandlers() error {", "func (s *Server) registerHandlers() {"), (V, '''	})))

	return nil
}''', '''	})))
}'''))
e("shutdown", "same", (V, GO, '''	stopped := make(chan struct{})
	go func() {
		defer close(stopped)
		<-ch
		hs.Close()
	}()
	if err := hs.Serve(listener); err != http.ErrServerClosed {
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
	<-stopped
	return nil
'''), (V, '''// waitSignal blocks waiting for operating system signals or an error that stops the server
func (s *Server) waitSignal(ch <-chan os.Signal, errs <-chan error) error {
''' + SEL + "}\n\n", ""))
# ---- bugs
e("unbuffered", "bug", (V, "make(chan os.Signal, 1)", "make(chan os.Signal)"))
e("room-none", "bug", (V, "	ch := make(chan os.Signal, 1)\n", "	room := 0\n	ch := make(chan os.Signal, room)\n"))
e("notify-late", "bug", (V, NOTIFY, ""), (V, WAIT, "	ch := make(chan os.Signal, 1)\n	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n" + WAIT))
e("notify-after-listen", "bug", (V, NOTIFY, ""), (V, "	errs := make(chan error, 1)\n", NOTIFY + "	errs := make(chan error, 1)\n"))
e("notify-goroutine", "bug", (V, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)", "	go signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)"))
e("no-term", "bug", (V, "syscall.SIGINT, syscall.SIGTERM)\n", "syscall.SIGINT)\n"))
e("no-int", "bug", (V, "syscall.SIGINT, syscall.SIGTERM)\n", "syscall.SIGTERM)\n"))
e("quit-for-term", "bug", (V, "syscall.SIGINT, syscall.SIGTERM)\n", "syscall.SIGINT, syscall.SIGQUIT)\n"))
e("term-not-heeded", "bug", (V, "			case syscall.SIGINT, syscall.SIGTERM:", "			case syscall.SIGINT:"))
e("int-twice", "bug", (V, "			case syscall.SIGINT, syscall.SIGTERM:\n				return nil\n", "			case syscall.SIGINT:\n				if n++; n > 1 {\n					return nil\n				}\n			case syscall.SIGTERM:\n				return nil\n"), (V, "	for {\n		select {\n		case sig", "	n := 0\n	for {\n		select {\n		case sig"))
e("default-ignored", "bug", (V, SEL, '''	for {
		select {
		case err := <-errs:
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		case sig := <-ch:
			if sig != syscall.SIGHUP {
				continue
			}
			return nil
		}
	}
'''))
e("term-error", "bug", (V, "				return nil\n				// TODO", "				return fmt.Errorf(\"terminated by %v\", sig)\n				// TODO"))
e("errs-nil", "bug", (V, '''			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
''', '''			s.Logger.Printf("fatal error serving on %s: %v", s.Addr, err)
			return nil
		}
'''))
e("errs-logged", "bug", (V, '''			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
''', '''			s.Logger.Printf("fatal error serving on %s: %v", s.Addr, err)
		}
'''))
e("errs-closed", "bug", (V, '''			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
''', '''			if errors.Is(err, net.ErrClosed) {
				return nil
			}
			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
'''), (V, '	"context"\n', '	"context"\n	"errors"\n'))
e("errs-eof", "bug", (V, '''			return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
		}
''', '''			if err != io.EOF {
				return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
			}
		}
'''))
e("errs-not-awaited", "bug", (V, WAIT, "	return s.waitSignal(ch, nil)\n"))
e("signal-only", "bug", (V, SEL, '''	for sig := range ch {
		switch sig {
		case syscall.SIGINT, syscall.SIGTERM:
			return nil
		}
	}
	return <-errs
'''))
e("first-errs", "bug", (V, SEL, '''	if err := <-errs; err != nil {
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
	<-ch
	return nil
'''))
e("goroutine-log", "bug", (V, "		errs <- hs.Serve(listener)\n", "		if err := hs.Serve(listener); err != nil {\n			s.Logger.Printf(\"serve: %v\", err)\n		}\n"))
e("goroutine-temporary", "bug", (V, "		errs <- hs.Serve(listener)\n", "		err := hs.Serve(listener)\n		if ne, ok := err.(net.Error); ok && ne.Temporary() {\n			return\n		}\n		errs <- err\n"))
e("goroutine-drop", "bug", (V, "		errs <- hs.Serve(listener)\n", "		hs.Serve(listener)\n"))
e("goroutine-direct", "bug", (V, "	go func() {\n		errs <- hs.Serve(listener)\n	}()\n", "	go hs.Serve(listener)\n"))
e("goroutine-other-chan", "bug", (V, "		errs <- hs.Serve(listener)\n", "		failed := make(chan error, 1)\n		failed <- hs.Serve(listener)\n"))
e("goroutine-select", "bug", (V, "make(chan error, 1)", "make(chan error)"), (V, "		errs <- hs.Serve(listener)\n", "		err := hs.Serve(listener)\n		select {\n		case errs <- err:\n		default:\n		}\n"))
e("stop-early", "bug", (V, WAIT, "	signal.Stop(ch)\n" + WAIT))
e("reset", "bug", (V, WAIT, "	signal.Reset(syscall.SIGTERM)\n" + WAIT))
e("ignore", "bug", (V, WAIT, "	signal.Ignore(syscall.SIGINT)\n" + WAIT))
e("print", "bug", (A, MAIN, MAIN.replace("log.Fatal", "log.Print")))
e("setup-print", "bug", (A, SETUP, SETUP.replace("log.Fatal", "log.Print")))
e("setup-ignored", "bug", (A, SETUP, "	setupDemo(s)\n"))
e("serve-ignored", "bug", (A, MAIN, "	_ = s.Serve()\n"))
e("exit0", "bug", (A, MAIN, MAIN.replace("log.Fatal(err.Error())", "log.Print(err)\n		os.Exit(0)")), (A, '	"log"\n', '	"log"\n	"os"\n'))
e("exit-silent", "bug", (A, MAIN, MAIN.replace("log.Fatal(err.Error())", "os.Exit(1)")), (A, '	"log"\n', '	"log"\n	"os"\n'))
e("main-return", "bug", (A, SETUP, SETUP.replace("log.Fatal(err.Error())", "log.Print(err)\n		return")))
e("listen-nil", "bug", (V, '''		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
''', '''		s.Logger.Printf("fatal error listening on %s: %v", s.Addr, err)
		return nil
'''))
e("listen-shadow", "bug", (V, LISTEN, '''	listener, err := net.Listen(s.Net, s.Addr)
	if err != nil {
		listener, err = net.Listen(s.Net, "127.0.0.1:0")
	}
'''))
e("compile-skip", "bug", (D, '''	coll, err := sch.Compile()
	if err != nil {
		return err
	}
''', '''	coll, err := sch.Compile()
	if err != nil {
		return nil
	}
'''))
e("compile-first", "bug", (D, '''	if err != nil {
		return err
	}

	return addDemoCollation(''', '''	if err != nil {
		log.Print(err)
	}

	return addDemoCollation('''), (D, 'import (\n', 'import (\n	"log"\n\n'))
e("block", "bug", (V, WAIT, "	select {}\n"))
e("recover", "bug", (A, SETUP, "	defer func() { recover() }()\n" + SETUP.replace("log.Fatal(err.Error())", "panic(err)")))
