package main

// Most general clients of the exported API. They are never run: the abstract
// interpreter enumerates their paths.

const drvResponseWriter = `package responsewriter

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2"
)

func None(w http.ResponseWriter) int {
	rw := gotsrpc.ResponseWriter{ResponseWriter: w}
	return rw.Status()
}

func One(w http.ResponseWriter, a int) int {
	rw := gotsrpc.ResponseWriter{ResponseWriter: w}
	rw.WriteHeader(a)
	return rw.Status()
}

func Two(w http.ResponseWriter, a, b int) int {
	rw := gotsrpc.ResponseWriter{ResponseWriter: w}
	rw.WriteHeader(a)
	rw.WriteHeader(b)
	return rw.Status()
}

func Three(w http.ResponseWriter, a, b, c int) int {
	rw := gotsrpc.ResponseWriter{ResponseWriter: w}
	rw.WriteHeader(a)
	rw.WriteHeader(b)
	rw.WriteHeader(c)
	return rw.Status()
}

func Body(w http.ResponseWriter, data []byte) int {
	rw := &gotsrpc.ResponseWriter{ResponseWriter: w}
	_, _ = rw.Write(data)
	return rw.Status()
}

func OneBody(w http.ResponseWriter, a int, data []byte) int {
	rw := &gotsrpc.ResponseWriter{ResponseWriter: w}
	rw.WriteHeader(a)
	_, _ = rw.Write(data)
	return rw.Status()
}

func Header(w http.ResponseWriter) http.Header {
	rw := gotsrpc.ResponseWriter{ResponseWriter: w}
	return rw.Header()
}
`

const drvStats = `package stats

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2"
)

func None(r *http.Request) bool {
	_, ok := gotsrpc.GetStatsForRequest(r)
	return ok
}

func Attached(r *http.Request) (ok1, ok2 bool, a, b *gotsrpc.CallStats) {
	r2 := gotsrpc.RequestWithStatsContext(r)
	a, ok1 = gotsrpc.GetStatsForRequest(r2)
	b, ok2 = gotsrpc.GetStatsForRequest(r2)
	return ok1, ok2, a, b
}

func Separate(r, s *http.Request) (a, b *gotsrpc.CallStats) {
	a, _ = gotsrpc.GetStatsForRequest(gotsrpc.RequestWithStatsContext(r))
	b, _ = gotsrpc.GetStatsForRequest(gotsrpc.RequestWithStatsContext(s))
	return a, b
}

func Cleared(r *http.Request) bool {
	r2 := gotsrpc.RequestWithStatsContext(r)
	gotsrpc.ClearStats(r2)
	_, ok := gotsrpc.GetStatsForRequest(r2)
	return ok
}

func ClearedCall(r *http.Request, fn, pkg, service, msg string, n, size int) bool {
	r2 := gotsrpc.RequestWithStatsContext(r)
	s, _ := gotsrpc.GetStatsForRequest(r2)
	s.Func, s.Package, s.Service = fn, pkg, service
	s.ErrorCode, s.ErrorMessage = n, msg
	s.RequestSize, s.ResponseSize = size, size
	gotsrpc.ClearStats(r2)
	_, ok := gotsrpc.GetStatsForRequest(r2)
	return ok
}

func Instrumented(w http.ResponseWriter, r *http.Request) (mw []*gotsrpc.CallStats, handled []*gotsrpc.CallStats, oks []bool, log []string, ws []http.ResponseWriter) {
	h := gotsrpc.InstrumentedService(func(w http.ResponseWriter, r *http.Request) {
		log = append(log, "middleware")
		ws = append(ws, w)
		s, ok := gotsrpc.GetStatsForRequest(r)
		s.Func = "called"
		mw = append(mw, s)
		oks = append(oks, ok)
	}, func(s *gotsrpc.CallStats) {
		log = append(log, "stats")
		handled = append(handled, s)
	})
	h(w, r)
	return
}

func InstrumentedCleared(w http.ResponseWriter, r *http.Request) (handled []*gotsrpc.CallStats, log []string) {
	h := gotsrpc.InstrumentedService(func(w http.ResponseWriter, r *http.Request) {
		log = append(log, "middleware")
		s, _ := gotsrpc.GetStatsForRequest(r)
		s.Func = "called"
		gotsrpc.ClearStats(r)
	}, func(s *gotsrpc.CallStats) {
		handled = append(handled, s)
	})
	h(w, r)
	return
}

func InstrumentedTwice(w http.ResponseWriter, r, s *http.Request) (mw []*gotsrpc.CallStats, handled []*gotsrpc.CallStats) {
	h := gotsrpc.InstrumentedService(func(w http.ResponseWriter, r *http.Request) {
		s, _ := gotsrpc.GetStatsForRequest(r)
		mw = append(mw, s)
	}, func(s *gotsrpc.CallStats) {
		handled = append(handled, s)
	})
	h(w, r)
	h(w, s)
	return
}
`

const drvProm = `package prom

import (
	"net/http"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/prometheus"
)

func Service(w http.ResponseWriter, r *http.Request, pkg, service, fn string, execution, marshalling, unmarshalling time.Duration, requestSize, responseSize int, errorCode int, errorType, errorMessage string) {
	prometheus.InstrumentService(func(w http.ResponseWriter, r *http.Request) {
		s, _ := gotsrpc.GetStatsForRequest(r)
		s.Package, s.Service, s.Func = pkg, service, fn
		s.Execution, s.Marshalling, s.Unmarshalling = execution, marshalling, unmarshalling
		s.RequestSize, s.ResponseSize = requestSize, responseSize
		s.ErrorCode, s.ErrorType, s.ErrorMessage = errorCode, errorType, errorMessage
	})(w, r)
}

func GoRPC(pkg, service, fn string, execution, marshalling, unmarshalling time.Duration, requestSize, responseSize int, errorCode int, errorType, errorMessage string) {
	prometheus.InstrumentGoRPCService()(&gotsrpc.CallStats{
		Package: pkg, Service: service, Func: fn,
		Execution: execution, Marshalling: marshalling, Unmarshalling: unmarshalling,
		RequestSize: requestSize, ResponseSize: responseSize,
		ErrorCode: errorCode, ErrorType: errorType, ErrorMessage: errorMessage,
	})
}
`
