package main

// genSpell: methods, parameters and results that carry the names well-known
// interfaces, languages and the generated code itself use.
var genSpell = &genInput{
	name: "spell", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/spell": {"spell.go": `package spell

import (
	nh "net/http"
	std "time"
)

type QzSpell struct{}

func (s *QzSpell) ServeHTTP(w string, r *QzTime) (p string)

func (s *QzSpell) String() string

func (s *QzSpell) Error() string

func (s *QzSpell) GoString() (s1 string)

func (s *QzSpell) Init()

func (s *QzSpell) Close() error

func (s *QzSpell) Get(key string) (value string, ok bool)

func (s *QzSpell) Set(key, value string)

func (s *QzSpell) SetQzName(qzName string)

func (s *QzSpell) SetQzNames(qzNames []string) error

func (s *QzSpell) GetQzName() (qzName string)

func (s *QzSpell) IsQz() bool

func (s *QzSpell) HasQz(qza string) bool

func (s *QzSpell) Len() int

func (s *QzSpell) Less(i, j int) bool

func (s *QzSpell) Swap(i, j int)

func (s *QzSpell) Read(p []byte) (n int, err error)

func (s *QzSpell) Write(p []byte) (n int, err error)

func (s *QzSpell) Do(req string) (rsp string)

func (s *QzSpell) Call(method string, args []string) (rets []string)

func (s *QzSpell) Delete(id string)

func (s *QzSpell) Serve()

func (s *QzSpell) Lock()

func (s *QzSpell) Unlock()

func (s *QzSpell) MarshalJSON() ([]byte, error)

func (s *QzSpell) UnmarshalJSON(data []byte) error

func (s *QzSpell) New() *QzTime

func (s *QzSpell) NewQz(qza string) *QzTime

func (s *QzSpell) Default() QzTime

func (s *QzSpell) Case() string

func (s *QzSpell) Func() string

func (s *QzSpell) Type(kind string) string

func (s *QzSpell) Range(from, to int) []int

func (s *QzSpell) Import(file string) error

func (s *QzSpell) Package() string

func (s *QzSpell) Test()

func (s *QzSpell) TestQz(qza string) bool

func (s *QzSpell) Context() string

func (s *QzSpell) Unwrap() error

func (s *QzSpell) Is(qza string) bool

func (s *QzSpell) As(qza string) bool

func (s *QzSpell) Monitor(w, r string) (stats string)

func (s *QzSpell) Reply(response, w string)

func (s *QzSpell) LoadArgs(args []string, r string)

func (s *QzSpell) X()

func (s *QzSpell) XY(x, y int) (X2 int, y2 int)

func (s *QzSpell) URLOf(id string) string

func (s *QzSpell) Qz_under_score(qz_a string) (qz_b string)

func (s *QzSpell) QzÄnderung(qza string) string

func (s *QzSpell) QzLocals(w, r, p, args, rets, err, rw, callStats, funcName, executionStart string) (http, time, io, gotsrpc, service string)

func (s *QzSpell) QzLocalsBack(http, time, io, gotsrpc, service, endPoint, context, reply, clientErr, url string) (w, r, p, args, rets, err, rw, callStats, funcName, executionStart string)

func (s *QzSpell) QzLocalsSession(hw nh.ResponseWriter, hr *nh.Request, w, r, args, rets, err, rw, callStats string) (http, time, gotsrpc, executionStart, funcName string)

func (s *QzSpell) QzOnlyStats(hw nh.ResponseWriter, hr *nh.Request) (callStats string)

func (s *QzSpell) QzTypes(string string, int int, bool bool) (error string)

func (s *QzSpell) QzStd(time std.Time) (http *std.Time)

func (s *QzSpell) qzHidden(qza string) string

func (s *QzSpell) _qzHidden(qza string) string

func (s *QzSpell) äHidden()

type QzTime struct {
	QzX string
}

type QzFace interface {
	ServeHTTP(w string, r *QzTime) (p string)
	String() string
	Error() string
	Init()
	Close() error
	Get(key string) (value string, ok bool)
	Set(key, value string)
	SetQzName(qzName string)
	GetQzName() (qzName string)
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
	Read(p []byte) (n int, err error)
	Write(p []byte) (n int, err error)
	Do(req string) (rsp string)
	Call(method string, args []string) (rets []string)
	Delete(id string)
	Serve()
	Lock()
	MarshalJSON() ([]byte, error)
	New() *QzTime
	Default() QzTime
	Type(kind string) string
	Test()
	Unwrap() error
	X()
	QzLocals(w, r, p, args, rets, err, rw, callStats, funcName, executionStart string) (http, time, io, gotsrpc, service string)
	QzLocalsSession(hw nh.ResponseWriter, hr *nh.Request, w, r, args, rets, err, rw, callStats string) (http, time, gotsrpc, executionStart, funcName string)
	qzHidden(qza string) string
}
`},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/spell": {out: "/ts/spell-vo.ts"},
		"time":          {out: "/ts/time.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/spell", services: map[string]string{"/qz/spell": "QzSpell", "/qz/face": "QzFace"}, out: "/ts/spell.ts",
		tsrpc: []string{"QzSpell", "QzFace"}, skip: true}},
}

// genPlace: packages are imported under every kind of name and from every kind of
// place, files carry headers of other generators, JSON names and tags are spelled
// in unusual ways.
var genPlace = &genInput{
	name: "places", modName: acme, modDir: acmeDir, goPath: "/go",
	pkgs: map[string]map[string]string{
		acme + "/places": {
			"aa_gen.go": `// Code generated by qzgen. DO NOT EDIT.

package places

import "example.com/acme/places/internal/own"

type QzMocked struct {
	QzX string
	QzY QzMockKind
}

type QzMockKind string

const (
	QzMockKindOne QzMockKind = "one"
	QzMockKindTwo QzMockKind = "two"
)

func (p *QzPlaces) QzMock(qza QzMocked, qzb own.QzOwn) (qzc QzMockKind)

type QzMockService struct{}

func (p *QzMockService) QzMockOnly(qza QzMocked) (qzb *own.QzOwn)
`,
			"places.go": `//go:build !qznever

// Package places is documented.
package places

import (
	rec "dep.org/recs"
	recb "dep.org/rec"
	rectwo "dep.org/rec/v2"
	one "dep.org/two"
	two "dep.org/one"
	kitx "dep.org/my-lib.go/kit-x"
	mm "dep.org/mapmap"
	"example.com/acme/internal/deep"
	qztime "example.com/acme/time"
	"time"
)

// QzPlaces is documented.
type QzPlaces struct{}

// QzRecs is documented.
//
// Deprecated: for testing.
func (p *QzPlaces) QzRecs(qza rec.QzRec, qzb recb.QzRec, qzc rectwo.QzRec) (qzd []rec.QzRec, qze []recb.QzRec, qzf map[string]rectwo.QzRec)

//go:noinline
func (p *QzPlaces) QzSwapped(qza one.QzRec, qzb *two.QzRec) (qzc two.QzRec, qzd *one.QzRec)

func (p *QzPlaces) QzKit(qza kitx.QzRec, qzb map[kitx.QzKind]kitx.QzRec) (qzc []kitx.QzKind)

func (p *QzPlaces) QzDeep(qza deep.QzRec) (qzb deep.QzKind)

func (p *QzPlaces) QzClock(qza qztime.Time, qzb time.Time, qzc []qztime.Time, qzd *time.Time) (qze *qztime.Time, qzf map[string]time.Time)

func (p *QzPlaces) QzMaps(qza map[string]map[string]mm.QzRec)

func (p *QzPlaces) QzUnions(qza QzHolder, qzb QzUnionA) (qzc *QzUnionB, qzd QzUnionC)

func (p *QzPlaces) QzNames(qza QzJSON, qzb QzHiddenKinds) (qzc QzNumbers, qzd QzBare)
`,
			"vo.go": `package places

import (
	"dep.org/unions"
	"example.com/acme/internal/deep"
)

type QzHolder struct {
	QzA unions.QzUnion
	QzB []*unions.QzUnionToo
	QzC map[string]QzUnionInner
}

type QzM struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'m'\"`" + `
}

type QzN struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'n'\"`" + `
}

type QzUnionA struct {
	QzA *QzM      ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB deep.QzRec ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
	QzC QzN       ` + "`json:\"c,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionB struct {
	QzA QzM  ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzN ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionC struct {
	QzA *QzM ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionInner struct {
	QzA *QzMockKind ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
}

type QzJSON struct {
	QzA string            ` + "`json:\"_id\"`" + `
	QzB string            ` + "`json:\"id_\"`" + `
	QzC string            ` + "`json:\"qz_snake_case\"`" + `
	QzD string            ` + "`json:\"QZ_UPPER\"`" + `
	QzE string            ` + "`json:\"$ref\"`" + `
	QzF string            ` + "`json:\"a\"`" + `
	QzG string            ` + "`json:\"A\"`" + `
	QzH string            ` + "`json:\"x1\"`" + `
	QzI string            ` + "`json:\"omitempty\"`" + `
	QzJ string            ` + "`json:\"inline\"`" + `
	QzK string            ` + "`json:\"type\"`" + `
	QzL string            ` + "`json:\"class,omitempty\"`" + `
	QzM *string           ` + "`json:\"m,string,omitempty\"`" + `
	QzN int               ` + "`json:\"n,string\"`" + `
	QzO *int              ` + "`json:\"o,omitzero,omitempty\"`" + `
	QzP []string          ` + "`json:\"p,omitempty,string\"`" + `
	QzQ *string           ` + "`json:\",string,omitempty\"`" + `
	QzR *string           ` + "`json:\"r,omit\"`" + `
	QzS *string           ` + "`json:\"s,omitemptyx\"`" + `
	QzT *string           ` + "`json:\"union\"`" + `
	QzU uintptr           ` + "`json:\"uptr\"`" + `
	QzV []uintptr         ` + "`json:\"v\"`" + `
	QzW map[string]uint64 ` + "`json:\"w\"`" + `
	QzX rune              ` + "`json:\"x\"`" + `
	QzY []struct {
		QzZ *string ` + "`json:\"z_,omitempty\"`" + `
	} ` + "`json:\"y_y\"`" + `
	QzAA *struct {
		QzZ interface{} ` + "`json:\"_z\"`" + `
	} ` + "`json:\"a_a\"`" + `
	QzAB []interface{} ` + "`json:\"ab\"`" + `
	QzAC map[string]interface{} ` + "`json:\"ac\"`" + `
	QzAE map[int]string ` + "`json:\"ae\"`" + `
	QzAF map[QzHiddenInt]string ` + "`json:\"af\"`" + `
}

type QzHiddenKinds struct {
	QzA QzHiddenKind
	QzB *QzHiddenInt
	QzC []QzMixedKind
}

type QzHiddenKind string

const (
	qzHiddenOne QzHiddenKind = "one"
	qzHiddenTwo QzHiddenKind = "two"
)

type QzHiddenInt int

const (
	qzHiddenZero QzHiddenInt = 0
	qzHiddenTen  QzHiddenInt = 10
)

type QzMixedKind string

const (
	QzMixedOne QzMixedKind = "one"
	qzMixedTwo QzMixedKind = "two"
)

type QzNumbers struct {
	QzA QzUintptr
	QzB QzRune
	QzC QzByte
	QzD QzUint64
	QzE QzFloat32
	QzF QzInt8
}

type QzUintptr uintptr

const QzUintptrOne QzUintptr = 1

type QzRune rune

const QzRuneOne QzRune = 1

type QzByte byte

const QzByteOne QzByte = 1

type QzUint64 uint64

const QzUint64Max QzUint64 = 18446744073709551615

type QzFloat32 float32

const (
	QzFloat32Half QzFloat32 = 0.5
	QzFloat32Exp  QzFloat32 = 1e3
)

type QzInt8 int8

type QzBare struct {
	QzA  QzBareString
	QzB  QzBareBool
	QzC  QzBareInt
	QzD  QzBareInt8
	QzE  QzBareInt16
	QzF  QzBareInt32
	QzG  QzBareInt64
	QzH  QzBareUint
	QzI  QzBareUint8
	QzJ  QzBareUint16
	QzK  QzBareUint32
	QzL  QzBareUint64
	QzM  QzBareUintptr
	QzN  QzBareFloat32
	QzO  QzBareFloat64
	QzP  QzBareByte
	QzQ  QzBareRune
	QzR  []QzBareRune
	QzS  map[string]QzBareUintptr
}

type QzBareString string
type QzBareBool bool
type QzBareInt int
type QzBareInt8 int8
type QzBareInt16 int16
type QzBareInt32 int32
type QzBareInt64 int64
type QzBareUint uint
type QzBareUint8 uint8
type QzBareUint16 uint16
type QzBareUint32 uint32
type QzBareUint64 uint64
type QzBareUintptr uintptr
type QzBareFloat32 float32
type QzBareFloat64 float64
type QzBareByte byte
type QzBareRune rune
`,
		},
		acme + "/places/internal/own": {"own.go": `package own

type QzOwn struct {
	QzX string
}
`},
		acme + "/internal/deep": {"deep.go": `package deep

type QzRec struct {
	QzT    string ` + "`json:\"t\" gotsrpc:\"type:'deep'\"`" + `
	QzKind QzKind
}

type QzKind string

const QzKindOne QzKind = "one"
`},
		acme + "/time": {"time.go": `package time

type Time struct {
	QzWhen string
}
`},
		"dep.org/recs":   {"recs.go": "package recs\n\ntype QzRec struct {\n\tQzRecs string\n}\n"},
		"dep.org/rec":    {"rec.go": "package rec\n\ntype QzRec struct {\n\tQzRec int\n}\n"},
		"dep.org/rec/v2": {"rec.go": "package rec\n\ntype QzRec struct {\n\tQzRecTwo bool\n}\n"},
		"dep.org/one":    {"one.go": "package one\n\ntype QzRec struct {\n\tQzOne string\n}\n"},
		"dep.org/two":    {"two.go": "package two\n\ntype QzRec struct {\n\tQzTwo string\n}\n"},
		"dep.org/my-lib.go/kit-x": {"kit.go": `package kitx

type QzRec struct {
	QzKind QzKind
}

type QzKind string

const QzKindKit QzKind = "kit"
`},
		"dep.org/mapmap": {"mapmap.go": "package mapmap\n\ntype QzRec struct {\n\tQzX string\n}\n"},
		"dep.org/unions": {"unions.go": `package unions

type QzP struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'p'\"`" + `
}

type QzQ struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'q'\"`" + `
}

type QzUnion struct {
	QzA *QzP ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzQ ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionToo struct {
	QzB *QzQ ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
	QzA *QzP ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
}
`},
		"time": {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/places":              {out: "/ts/places/vo.ts"},
		acme + "/places/internal/own": {out: "/ts/places/own.ts"},
		acme + "/internal/deep":       {out: "/ts/deep.ts"},
		acme + "/time":                {out: "/ts/acme-time.ts"},
		"time":                        {out: "/ts/time.ts"},
		"dep.org/recs":                {out: "/ts/dep/recs.ts"},
		"dep.org/rec":                 {out: "/ts/dep/rec.ts"},
		"dep.org/rec/v2":              {out: "/ts/dep/rec2.ts"},
		"dep.org/one":                 {out: "/ts/dep/one.ts"},
		"dep.org/two":                 {out: "/ts/dep/two.ts"},
		"dep.org/my-lib.go/kit-x":     {out: "/ts/dep/stats.ts"},
		"dep.org/mapmap":              {out: "/ts/dep/mapmap.ts"},
		"dep.org/unions":              {out: "/ts/dep/unions.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/places", services: map[string]string{"/qz/places": "QzPlaces", "/qz/mocked": "QzMockService"}, out: "/ts/places/client.ts",
		gorpc: []string{"QzPlaces", "QzMockService"}, tsrpc: []string{"QzPlaces", "QzMockService"}}},
}

// genPlain: targets without a TypeScript client, with GoRPC only, with TSRPC only,
// whose packages use each other's types.
var genPlain = &genInput{
	name: "plain", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/plain": {"plain.go": `package plain

import "example.com/acme/plain/vo"

type QzPlain struct{}

func (p *QzPlain) QzSave(qza *vo.QzRec, qzb vo.QzUnion, qzc vo.QzUnmapped) (qzd vo.QzKind, qze error)

func (p *QzPlain) QzOwn(qza QzOwn, qzb []QzUnion) (qzc map[string]QzOwn)

type QzOwn struct {
	QzX *vo.QzRec
}

type QzUnion struct {
	QzA *QzOwn    ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *vo.QzRec ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}
`},
		acme + "/rpc": {"rpc.go": `package rpc

import (
	"example.com/acme/plain"
	"example.com/acme/plain/vo"
)

type QzRPC interface {
	QzCall(qza vo.QzRec, qzb plain.QzOwn) (qzc *vo.QzUnion, qzd error)
	QzNothing()
}
`},
		acme + "/more": {"more.go": `package more

import (
	"example.com/acme/plain"
	"example.com/acme/plain/vo"
)

type QzMore struct{}

func (m *QzMore) QzMix(qza plain.QzOwn, qzb map[vo.QzKind]QzHere) (qzc []QzHere, qzd error)

type QzHere struct {
	QzX *plain.QzUnion
}
`},
		acme + "/web": {"web.go": `package web

import "example.com/acme/plain/vo"

type QzWeb struct{}

func (w *QzWeb) QzShow(qza vo.QzRec) (qzb *vo.QzUnion)
`},
		acme + "/plain/vo": {"vo.go": `package vo

type QzRec struct {
	QzX string
}

type QzKind string

const QzKindOne QzKind = "one"

type QzM struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'m'\"`" + `
}

type QzN struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'n'\"`" + `
}

type QzUnion struct {
	QzA *QzM ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzN ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnmapped struct {
	QzKinds []QzKind
}
`},
	},
	mappings: map[string]genMapping{
		acme + "/plain/vo": {out: "/ts/vo.ts"},
	},
	targets: []genTarget{
		{name: "qzaplain", pkg: acme + "/plain", services: map[string]string{"/qz/plain": "QzPlain"}, gorpc: []string{"QzPlain"}, tsrpc: []string{"QzPlain"}, skip: true},
		{name: "qzbrpc", pkg: acme + "/rpc", services: map[string]string{"/qz/rpc": "QzRPC"}, gorpc: []string{"QzRPC"}},
		{name: "qzcweb", pkg: acme + "/web", services: map[string]string{"/qz/web": "QzWeb"}, tsrpc: []string{"QzWeb"}, out: "/ts/web.ts"},
		{name: "qzdmore", pkg: acme + "/more", services: map[string]string{"/qz/more": "QzMore"}, gorpc: []string{"QzMore"}, tsrpc: []string{"QzMore"}},
	},
}
