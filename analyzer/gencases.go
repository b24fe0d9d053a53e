package main

// Schematic inputs. The names containing Qz are place holders: the rules
// report any comparison of a place holder with a constant (pe.compared) so that
// the input can be varied accordingly.

const srcTime = `package time

type Time struct {
	wall uint64
}

type Duration int64

const (
	Nanosecond  Duration = 1
	Microsecond          = 1000 * Nanosecond
)

type Month int
`

const srcHTTP = `package http

type ResponseWriter interface {
	WriteHeader(statusCode int)
}

type Request struct {
	Method string
}
`

const srcThings = `package things

type QzThing struct {
	QzID string
}

type QzKind string

type QzLevel int

const (
	QzKindA QzKind = "a"
	QzKindB QzKind = "b"
)
`

const srcOddName = `package oddqz

type QzOdd struct {
	QzN int
}
`

const srcShopTypes = `package shop

import (
	"time"

	"example.com/acme/things"
)

type QzItem struct {
	QzName  string         ` + "`json:\"qzName\"`" + `
	QzPrice float64
	QzTags  []string       ` + "`json:\"qzTags,omitempty\"`" + `
	QzThing *things.QzThing
	QzAt    time.Time
}

type QzErr struct {
	QzMsg string
}

func (e *QzErr) Error() string { return e.QzMsg }

type QzKey string

type QzCount int

type QzList []QzItem

type QzIndex map[QzKey]*QzItem

type Request struct {
	QzURL string
}

type ResponseWriter struct {
	QzCode int
}
`

const srcShop = `package shop

import (
	"context"
	"net/http"
	nethttp "net/http"
	"time"

	"example.com/acme/things"
	renamed "example.com/acme/deep/things"
)

var _ context.Context
var _ nethttp.Handler

type QzShop struct {
	qzState int
}

type qzHelper struct{}

type QzOther struct{}

func NewQzShop() *QzShop

func (s *QzShop) QzNone()

func (s *QzShop) QzArg(qzA string)

func (s *QzShop) QzRet() (qzR string)

func (s *QzShop) QzBare() string

func (s *QzShop) QzBareTwo() (string, int)

func (s *QzShop) QzBareThree(qzX bool) (bool, *QzItem, *QzErr)

func (s *QzShop) QzNamed(qzFirst int, qzSecond *QzItem) (qzOut QzItem, qzErr *QzErr)

func (s *QzShop) QzGrouped(qzA, qzB string, qzC []QzItem, qzD map[string]*QzItem) (qzU, qzV int, qzW error)

func (s *QzShop) QzSession(w http.ResponseWriter, r *http.Request)

func (s *QzShop) QzSessionArgs(w http.ResponseWriter, r *http.Request, qzUser string, qzN int) (qzOK bool, qzErr error)

func (s *QzShop) QzSessionRet(qzWriter nethttp.ResponseWriter, qzReq *nethttp.Request) string

func (s *QzShop) QzUpper(QzID string, URL int) (QzResult bool, Err error)

func (s *QzShop) QzArgMore(qzA string, qzMore string)

func (s *QzShop) qzHidden(qzA string)

func (o *QzOther) QzForeign(qzA string)

func (h *qzHelper) QzHelp()

func QzFree(qzA string)

func (s *QzShop) QzSame(qzThing things.QzThing, qzOther renamed.QzThing) (qzBack *renamed.QzThing, qzKind things.QzKind)

func (s *QzShop) QzTimes(qzAt time.Time, qzPtr *time.Time, qzFor time.Duration) (qzList []time.Time)

func (s *QzShop) QzDeep(qzA [][]QzItem, qzB map[QzKey][]map[things.QzKind]*things.QzThing, qzC []byte, qzD interface{}, qzE []interface{}, qzF any) (qzG QzList, qzH QzIndex, qzI map[string]map[string][]*renamed.QzThing)

func (s *QzShop) QzScalars(qzA bool, qzB int8, qzC uint64, qzD float32, qzE QzKey, qzF QzCount, qzG *string, qzH *QzKey) (qzI *int64, qzJ []*QzCount, qzK map[string]bool)

func (s *QzShop) QzOwn(qzReq *Request, qzW ResponseWriter) (qzBack *Request)
`

const srcShopAdmin = `package shop

import (
	"net/http"
)

type (
	qzUnrelated interface {
		QzNo()
	}

	QzShopAdmin interface {
		QzNone()
		QzArg(qzA QzCount) (err error)
		QzArgs(qzA *QzItem, qzB map[string]QzKey) (qzR []QzItem, err error)
		QzBare(qzA string, qzB int) (bool, *QzErr)
		QzLogin(w http.ResponseWriter, r *http.Request, qzName string) (qzToken string)
		qzHidden(qzA int)
	}
)

func (s *QzShop) QzZSecondFile(qzLast string) (qzDone bool)
`

const srcShopTest = `package shop

func (s *QzShop) QzOnlyInTests(qzA string) (qzB string) { return "" }
`

var genShopPkgs = map[string]map[string]string{
	acme + "/shop":        {"qzservice.go": srcShop, "qzadmin.go": srcShopAdmin, "qztypes.go": srcShopTypes, "qzservice_test.go": srcShopTest},
	acme + "/things":      {"things.go": srcThings},
	acme + "/deep/things": {"things.go": "package things\n\ntype QzThing struct {\n\tQzDeepID int\n}\n"},
	"time":                {"time.go": srcTime},
	"net/http":            {"http.go": srcHTTP},
}

var genShopMappings = map[string]genMapping{
	acme + "/shop":        {out: "/ts/shop-vo.ts"},
	acme + "/things":      {out: "/ts/things/vo.ts"},
	acme + "/deep/things": {out: "/ts/deep.ts"},
	"time":                {out: "/ts/time.ts"},
}

// genShop: two services, all method shapes, every transport.
var genShop = &genInput{
	name: "shop", modName: acme, modDir: acmeDir, pkgs: genShopPkgs, mappings: genShopMappings,
	targets: []genTarget{{name: "qztarget", pkg: acme + "/shop", services: map[string]string{"/qz/shop": "QzShop", "/qz/admin": "QzShopAdmin"},
		out: "/ts/shop.ts", gorpc: []string{"QzShop", "QzShopAdmin"}, tsrpc: []string{"QzShop", "QzShopAdmin"}}},
}

// genSplit: every service has its own transport, the client is skipped.
var genSplit = &genInput{
	name: "split", modName: acme, modDir: acmeDir, pkgs: genShopPkgs, mappings: genShopMappings,
	targets: []genTarget{{name: "qztarget", pkg: acme + "/shop", services: map[string]string{"/qz/shop": "QzShop", "/qz/admin": "QzShopAdmin"},
		out: "/ts/shop.ts", gorpc: []string{"QzShop"}, tsrpc: []string{"QzShopAdmin"}}},
}

// ---- the type matrix ----------------------------------------------------------------------

const srcParts = `package parts

import (
	"time"

	"example.com/acme/deep/parts"
)

type QzPart struct {
	QzID   string ` + "`json:\"id\"`" + `
	QzMade time.Time
	QzDeep parts.QzPart
}

type QzParts []QzPart

type QzPartPtrs []*QzPart

type QzPartMap map[QzPartKind]QzPart

type QzPartKind string

const (
	QzPartKindBig   QzPartKind = "big"
	QzPartKindSmall QzPartKind = "small"
	QzUntyped                  = "untyped"
)

type QzGrade int

const QzGradeA, QzGradeB QzGrade = 1, 2

type QzFlag bool

type QzRatio float32

type QzBase struct {
	QzBaseID string ` + "`json:\"baseId,omitempty\"`" + `
}

type QzOnlyListed struct {
	QzOnlyField QzOnlyByListed
}

type QzOnlyByListed struct {
	QzX int
}

type QzListedKind string

const (
	QzListedKindOne QzListedKind = "one"
)

type QzNeverUsed struct {
	QzX int
}
`

const srcKeys = `package keys

type QzOnlyAsKey string

type QzOnlyAsValue bool
`

const srcKitModel = `package kit

import (
	"time"

	"example.com/acme/parts"
	deep "example.com/acme/deep/parts"
	"example.com/acme/keys"
)

type QzAll struct {
	QzString  string
	QzBool    bool
	QzInt     int
	QzInt8    int8
	QzInt16   int16
	QzInt32   int32
	QzInt64   int64
	QzUint    uint
	QzUint8   uint8
	QzUint16  uint16
	QzUint32  uint32
	QzUint64  uint64
	QzFloat32 float32
	QzFloat64 float64
	QzBytes   []byte
	QzByte    byte
	QzRune    rune
	QzUintptr uintptr
	QzBytes8  []uint8
	QzRunes   []rune
	QzBytePtr *byte
	QzBytess  [][]byte
	QzBlobs   []QzBlob
	QzBytePtrs []*byte
	QzMapByte  map[string]byte
	QzMapBytes map[string][]byte
	QzMapBKey  map[uint8]string
	QzBlob     QzBlob
	QzByteKind QzByteKind
	QzRuneKind QzRuneKind
	QzIface   interface{}
	QzAny     any
	QzTime    time.Time
	QzFor     time.Duration

	QzPtrString  *string
	QzPtrInt     *int
	QzPtrBool    *bool
	QzPtrTime    *time.Time
	QzPtrStruct  *QzNode
	QzPtrScalar  *QzName
	QzPtrForeign *parts.QzPart
	QzPtrKind    *parts.QzPartKind
	QzPtrList    *QzNames
	QzPtrAnon    *struct {
		QzInner string
	}

	QzSlice        []string
	QzSlicePtr     []*string
	QzSliceStruct  []QzNode
	QzSlicePtrs    []*QzNode
	QzSliceSlice   [][]int
	QzSliceMap     []map[string]bool
	QzSliceForeign []parts.QzPart
	QzSliceTime    []time.Time
	QzSliceAnon    []struct {
		QzInner int ` + "`json:\"inner\"`" + `
	}
	QzSliceIface []interface{}
	QzSliceNamed []QzNames

	QzMap        map[string]string
	QzMapInt     map[int]string
	QzMapKey     map[QzName]QzNode
	QzMapForeign map[parts.QzPartKind]*deep.QzPart
	QzMapSlice   map[string][]QzNode
	QzMapMap     map[string]map[int][]string
	QzMapTime    map[string]time.Time
	QzMapIface   map[string]interface{}
	QzMapAnon    map[string]struct {
		QzOnlyInAnon QzOnlyInAnon
	}

	QzNamedList    QzNames
	QzNamedMap     QzNameMap
	QzForeignList  parts.QzParts
	QzForeignMap   parts.QzPartMap
	QzForeignPtrs  parts.QzPartPtrs
	QzTimeMap      QzTimeMap
	QzForeignKeys  QzForeignKeys
	QzDeepKeys     QzDeepKeys
	QzForeignScale parts.QzGrade
	QzForeignFlag  parts.QzFlag
	QzForeignRatio parts.QzRatio
	QzOwnIface     QzOpen
	QzAnon         struct {
		QzA string
		QzB *int ` + "`json:\"b,omitempty\"`" + `
		QzC struct {
			QzDeepest []string
		}
	}
}

type QzTagged struct {
	QzPlain      string
	QzNamed      string            ` + "`json:\"named\"`" + `
	QzOmit       string            ` + "`json:\"omit,omitempty\"`" + `
	QzOmitOnly   string            ` + "`json:\",omitempty\"`" + `
	QzIgnored    string            ` + "`json:\"-\"`" + `
	QzOtherTag   string            ` + "`yaml:\"other\" json:\"other\"`" + `
	QzNoJSON     string            ` + "`yaml:\"nojson\"`" + `
	QzOmitPtr    *QzNode           ` + "`json:\"omitPtr,omitempty\"`" + `
	QzKeepPtr    *QzNode           ` + "`json:\"keepPtr\"`" + `
	QzOmitSlice  []string          ` + "`json:\"omitSlice,omitempty\"`" + `
	QzOmitMap    map[string]string ` + "`json:\"omitMap,omitempty\"`" + `
	QzOmitList   QzNames           ` + "`json:\"omitList,omitempty\"`" + `
	QzOmitFor    parts.QzParts     ` + "`json:\"omitForeign,omitempty\"`" + `
	QzOmitTime   *time.Time        ` + "`json:\"omitTime,omitempty\"`" + `
	QzOmitScalar *string           ` + "`json:\"omitScalar,omitempty\"`" + `
	QzKeepMap    map[string]*QzNode ` + "`json:\"keepMap\"`" + `
	QzKeepSlice  []*string          ` + "`json:\"keepSlice\"`" + `
	QzKeepList   QzNames            ` + "`json:\"keepList\"`" + `
	QzKeepFor    parts.QzPartMap    ` + "`json:\"keepForeign\"`" + `
	QzKeepTime   *time.Time         ` + "`json:\"keepTime\"`" + `
	QzOmitMapPtr map[string]*QzNode ` + "`json:\"omitMapPtr,omitempty\"`" + `
	QzOmitBytes  []byte             ` + "`json:\"omitBytes,omitempty\"`" + `
	QzKeepAnon   *struct {
		QzX []int
	} ` + "`json:\"keepAnon\"`" + `
	QzOmitAnon   *struct {
		QzX int
	} ` + "`json:\"omitAnon,omitempty\"`" + `
	QzOmitNested []*QzNode         ` + "`json:\"omitNested,omitempty\"`" + `
	QzLit        string            ` + "`json:\"lit\" gotsrpc:\"type:'QzLiteral'\"`" + `
	QzOver       *int              ` + "`json:\"over,omitempty\" gotsrpc:\"type:string\"`" + `
	QzOverMap    map[string]int    ` + "`json:\"overMap\" gotsrpc:\"type:boolean\"`" + `
	qzHidden     string
	qzHiddenTag  string            ` + "`json:\"hidden\"`" + `
	QzTwo, QzTwin string
}

type QzNode struct {
	QzNext *QzNode
	QzKids []QzNode
	QzVia  map[QzOnlyKey][]*QzOnlyElem
}

type QzOnlyKey string

type QzOnlyElem struct {
	QzX int
}

type QzOnlyInAnon struct {
	QzX QzOnlyDeeper
}

type QzOnlyDeeper int

type QzName string

type QzNames []QzName

type QzNameMap map[QzName]*QzOnlyInMap

type QzOnlyInMap struct {
	QzX string
}

type QzOpen interface{}

type QzTimeMap map[time.Duration]*parts.QzPart

type QzForeignKeys map[parts.QzPartKind][]string

type QzDeepKeys map[string]map[keys.QzOnlyAsKey]keys.QzOnlyAsValue

type QzBlob []byte

type QzByteKind byte

type QzRuneKind rune

type QzInlined struct {
	QzOwnBase    ` + "`json:\",inline\"`" + `
	parts.QzBase ` + "`json:\",inline\"`" + `
	QzValue      string ` + "`json:\"value\"`" + `
}

type QzOwnBase struct {
	QzOwn QzOnlyInBase
}

type QzOnlyInBase string

type QzInlinedPtr struct {
	*QzOwnBase ` + "`json:\",inline,omitempty\"`" + `
	QzLast     *QzOwnBase ` + "`json:\"last,omitempty\"`" + `
}

type QzUnion struct {
	QzA *QzUnionA ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzUnionB ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionA struct {
	QzKind string ` + "`json:\"kind\" gotsrpc:\"type:'a'\"`" + `
}

type QzUnionB struct {
	QzKind string ` + "`json:\"kind\" gotsrpc:\"type:'b'\"`" + `
	QzMore QzOnlyInUnion
}

type QzOnlyInUnion struct {
	QzX bool
}

type QzUnionKind struct {
	QzA *QzUnionKindA ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzUnionKindB ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type (
	QzUnionKindA string
	QzUnionKindB string
)

const (
	QzUnionKindAOne QzUnionKindA = "one"
	QzUnionKindBTwo QzUnionKindB = "two"
	QzUnionKindBBig QzUnionKindB = "big"
)

type QzUser struct {
	QzUnion QzUnion      ` + "`json:\"union\"`" + `
	QzMaybe *QzUnion     ` + "`json:\"maybe\"`" + `
	QzKinds []QzUnionKind ` + "`json:\"kinds\"`" + `
}
`

const srcKit = `package kit

import (
	"net/http"
	"time"

	"example.com/acme/parts"
)

type QzKit struct{}

func (k *QzKit) QzEverything(qzA QzAll, qzB *QzTagged) (qzC QzInlined, qzD *QzInlinedPtr)

func (k *QzKit) QzUnions(qzA QzUser, qzB QzUnion, qzC *QzUnion, qzD []QzUnionKind) QzUser

func (k *QzKit) QzLists(qzA QzNames, qzB *QzNames, qzC parts.QzParts, qzD []parts.QzParts, qzE map[string]parts.QzPartMap, qzF parts.QzPartPtrs) (QzNameMap, parts.QzParts)

func (k *QzKit) QzTimes(w http.ResponseWriter, r *http.Request, qzA time.Time, qzB *time.Time, qzC []time.Time, qzD map[string]*time.Time, qzE map[time.Duration]string)

func (k *QzKit) QzInts(qzA int, qzB int8, qzC int16, qzD int32, qzE int64, qzF uint, qzG uint8, qzH uint16, qzI uint32, qzJ uint64, qzK float32, qzL float64, qzM string, qzN bool)

func (k *QzKit) QzBytes(qzA byte, qzB []byte, qzC []uint8, qzD rune, qzE [][]byte, qzF QzBlob, qzG QzByteKind, qzH *byte) ([]byte, byte, QzBlob)

func (k *QzKit) QzOpens(qzA QzOpen, qzB []QzOpen, qzC map[string]QzOpen, qzD interface{}, qzE []interface{}, qzF any) (qzG QzOpen)

func (k *QzKit) QzPtrs(qzA *int, qzB *string, qzD []*bool)
`

var genKit = &genInput{
	name: "kit", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/kit":        {"qzkit.go": srcKit, "qzmodel.go": srcKitModel},
		acme + "/parts":      {"parts.go": srcParts},
		acme + "/keys":       {"keys.go": srcKeys},
		acme + "/deep/parts": {"parts.go": "package parts\n\ntype QzPart struct {\n\tQzDeepID int `json:\"deepId\"`\n}\n"},
		"time":               {"time.go": srcTime},
		"net/http":           {"http.go": srcHTTP},
	},
	mappings: map[string]genMapping{
		acme + "/kit":        {out: "/ts/kit-vo.ts"},
		acme + "/parts":      {out: "/ts/parts/vo.ts", structs: []string{acme + "/parts.QzOnlyListed"}, scalars: []string{acme + "/parts.QzListedKind"}},
		acme + "/deep/parts": {out: "/ts/deep.ts"},
		acme + "/keys":       {out: "/ts/keys.ts"},
		"time":               {out: "/ts/time.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/kit", services: map[string]string{"/qz/kit": "QzKit"}, out: "/ts/sub/kit.ts", gorpc: []string{"QzKit"}, tsrpc: []string{"QzKit"}}},
}

// ---- several targets in one run -----------------------------------------------------------

const srcShared = `package shared

type QzItem struct {
	QzID    string ` + "`json:\"id\"`" + `
	QzState QzState ` + "`json:\"state\"`" + `
	QzMore  *QzMore ` + "`json:\"more,omitempty\"`" + `
}

type QzState int

const (
	QzStateNew QzState = 0
	QzStateOld QzState = 7
)

type QzMore struct {
	QzTags map[string]QzTag
}

type QzTag string

type QzOnlyOne struct {
	QzX QzOnlyOneInner
}

type QzOnlyOneInner struct {
	QzX string
}

type QzOnlyTwo struct {
	QzX []QzOnlyTwoInner
}

type QzOnlyTwoInner struct {
	QzX bool
}

type QzConfigured struct {
	QzX QzConfiguredInner
}

type QzConfiguredInner struct {
	QzX int
}
`

// genDuo: three targets, the last one without TypeScript, that share types and a module file.
var genDuo = &genInput{
	name: "duo", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/one": {"one.go": `package one

import (
	"example.com/acme/shared"
)

type QzOne struct{}

type QzPlace struct {
	QzZip string
}

func (o *QzOne) QzFirst(qzA shared.QzItem, qzB shared.QzOnlyOne) (qzC QzPlace, qzD error)

func (o *QzOne) QzSame(qzA string) (qzB int)
`},
		acme + "/sub/two": {"two.go": `package two

import (
	items "example.com/acme/shared"
	"example.com/acme/one"
)

type (
	QzTwo interface {
		QzSecond(qzA []items.QzItem, qzB *one.QzPlace) (qzC map[items.QzState]items.QzOnlyTwo)
		QzSame(qzA QzPlace) (qzB bool)
	}
	QzPlace struct {
		QzCity string
		QzVia  one.QzPlace
	}
)
`},
		acme + "/third": {"three.go": `package three

import "example.com/acme/shared"

type QzThree struct{}

func (t *QzThree) QzThird(qzA shared.QzItem) (qzB []shared.QzOnlyTwo, qzC error)
`},
		acme + "/shared": {"shared.go": srcShared},
		"time":           {"time.go": srcTime},
		"net/http":       {"http.go": srcHTTP},
	},
	mappings: map[string]genMapping{
		acme + "/one":     {out: "/ts/vo/one.ts"},
		acme + "/sub/two": {out: "/ts/vo/two.ts"},
		acme + "/third":   {out: "/ts/vo/three.ts"},
		acme + "/shared":  {out: "/ts/shared.ts", structs: []string{acme + "/shared.QzConfigured"}},
	},
	targets: []genTarget{
		{name: "qza", pkg: acme + "/one", services: map[string]string{"/qz/one": "QzOne"}, out: "/ts/one-client.ts", tsrpc: []string{"QzOne"}},
		{name: "qzb", pkg: acme + "/sub/two", services: map[string]string{"/qz/two": "QzTwo"}, out: "/ts/deep/two-client.ts", gorpc: []string{"QzTwo"}, tsrpc: []string{"QzTwo"}},
		{name: "qzc", pkg: acme + "/third", services: map[string]string{"/qz/three": "QzThree"}, gorpc: []string{"QzThree"}},
	},
}

// ---- what is exposed ------------------------------------------------------------------------

// genEdge: which methods and parameters are read from the source.
var genEdge = &genInput{
	name: "edge", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/edge": {
			"qza.go": `package edge

import (
	"net/http"

	"example.com/acme/kinds"
)

type QzEdge struct {
	QzPromoted
}

type QzPromoted struct{}

func (p *QzPromoted) QzFromEmbedded(qzA string)

type QzOther struct{}

func (o *QzOther) QzGrouped(qzZ int)

func (o *QzOther) QzOnlyOther(qzZ int)

func (o QzEdge) QzByValue(qzZ int)

func QzNoReceiver(qzA string)

func (e *QzEdge) qzHidden(qzA string)

func (e *QzEdge) QzGrouped(qzA, qzB string, qzC int, qzD, qzE bool) (qzF, qzG string, qzH error)

func (e *QzEdge) QzVoid()

func (e *QzEdge) QzMany(qzA, qzB, qzC, qzD string) (qzE, qzF, qzG, qzH int)

type qzEdge struct{}

func (e *qzEdge) QzOtherCase(qzA string)

type QzEdgeMore struct{}

func (e *QzEdgeMore) QzLongerName(qzA string)

type Edge struct{}

func (e *Edge) QzShorterName(qzA string)

func (*QzEdge) QzAnonymousReceiver(qzA string) string

func (e *QzEdge) QzOwnNames(qzA ResponseWriter, qzB *Request)

func (e *QzEdge) QzForeignNames(qzA kinds.ResponseWriter, qzB *kinds.Request)

func (e *QzEdge) QzSession(w http.ResponseWriter, r *http.Request, qzA, qzB string) (qzC int, qzD error)

func (e *QzEdge) QzSessionOnly(w http.ResponseWriter, r *http.Request)

func (e *QzEdge) QzSessionOwn(w http.ResponseWriter, r *http.Request, qzA ResponseWriter, qzB *Request)

func (e *QzEdge) Q(qzA string)

type ResponseWriter struct {
	QzX string
}

type Request struct {
	QzY string
}
`,
			"qzb.go": `package edge

import (
	http "example.com/acme/kinds"
	web "net/http"
)

func (e *QzEdge) QzSecondFile(qzA http.Request, qzB *http.ResponseWriter) (qzC *http.Request)

func (e *QzEdge) QzAliased(w web.ResponseWriter, r *web.Request, qzA *http.Request) bool

func (e *QzEdge) QzNotSession(w http.ResponseWriter, r *http.Request, qzA string)

func (e *QzEdge) ÄquatorQz(qzÄ string) (qzß int)

func (e *QzEdge) äquatorQz(qzÄ string) (qzß int)

type QzFace interface {
	qzInner
	QzDeclared(qzA, qzB int, qzC string) (qzD map[string]int, qzE error)
	qzNotExposed(qzA int)
	QzPlain()
	QzSession(w web.ResponseWriter, r *web.Request, qzA string) error
}

type qzInner interface {
	QzFromInner(qzA string)
}

type qzLow struct{}

func (l *qzLow) QzLow(qzA string, qzB QzThing) (qzC QzThing)

type QzThing struct {
	QzX string
}
`,
		},
		acme + "/kinds": {"kinds.go": `package kinds

type ResponseWriter struct {
	QzX string
}

type Request struct {
	QzY int
}
`},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/edge":  {out: "/ts/edge-vo.ts"},
		acme + "/kinds": {out: "/ts/kinds-vo.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/edge", services: map[string]string{"/qz/edge": "QzEdge", "/qz/face": "QzFace", "/qz/low": "qzLow"}, out: "/ts/edge.ts",
		gorpc: []string{"QzEdge", "QzFace", "qzLow"}, tsrpc: []string{"QzEdge", "QzFace", "qzLow"}}},
}

// genNames: a service package whose name is the import path of a package of the
// standard library, and imported packages with the names of packages the emitted
// code uses itself.
var genNames = &genInput{
	name: "names", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/time": {"time.go": `package time

import (
	"example.com/acme/gotsrpc"
	"example.com/acme/http"
	tm "time"
)

type QzClock struct{}

type QzTime struct {
	QzX tm.Time
}

type QzUnion struct {
	QzA *QzTime        ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *http.QzStatus ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

func (q *QzClock) QzNow(qzA tm.Time, qzB *tm.Time, qzC []tm.Time) (qzD tm.Time, qzE map[string]tm.Time)

func (q *QzClock) QzMixed(qzA QzTime, qzB *http.QzStatus, qzC []gotsrpc.QzCall) (qzD *QzTime, qzE http.QzStatus, qzF gotsrpc.QzCall)

func (q *QzClock) QzNotHTTP(qzA http.ResponseWriter, qzB *http.Request) error

func (q *QzClock) QzOwnUnion(qzA *QzUnion, qzB gotsrpc.QzUnion) error
`},
		acme + "/http": {"http.go": `package http

type QzStatus struct {
	QzX string
}

type ResponseWriter struct {
	QzX string
}

type Request struct {
	QzY int
}

type QzWeb struct{}

func (w *QzWeb) QzOwnWriter(qzA ResponseWriter, qzB *Request, qzC string) (qzD ResponseWriter)
`},
		acme + "/gotsrpc": {"call.go": `package gotsrpc

import "example.com/acme/http"

type QzCall struct {
	QzX http.QzStatus
}

type QzUnion struct {
	QzA *QzCall        ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *http.QzStatus ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}
`},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/time":    {out: "/ts/time-vo.ts"},
		acme + "/http":    {out: "/ts/http-vo.ts"},
		acme + "/gotsrpc": {out: "/ts/gotsrpc-vo.ts"},
		"time":            {out: "/ts/std-time.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/time", services: map[string]string{"/qz/clock": "QzClock"}, out: "/ts/clock.ts",
		gorpc: []string{"QzClock"}, tsrpc: []string{"QzClock"}},
		{name: "qzweb", pkg: acme + "/http", services: map[string]string{"/qz/web": "QzWeb"}, out: "/ts/web.ts",
			gorpc: []string{"QzWeb"}, tsrpc: []string{"QzWeb"}}},
}

// genFar: every imported package is reached through one position of one signature
// only, packages that are prefixes of the service package, packages of the same name.
var genFar = &genInput{
	name: "far", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/edge/far": {"far.go": `package far

import (
	"example.com/acme/arr"
	"example.com/acme/edge"
	"example.com/acme/edge/fa"
	"example.com/acme/inarr"
	"example.com/acme/inkey"
	"example.com/acme/inval"
	"example.com/acme/key"
	"example.com/acme/own"
	"example.com/acme/ret"
	"example.com/acme/val"
	xparts "example.com/acme/x/parts"
	yparts "example.com/acme/y/parts"
	odd "example.com/acme/z-1/odd-parts.v2"
)

type QzFar struct{}

func (f *QzFar) QzFirst(qzA edge.QzKind, qzB fa.QzKind, qzC fa.QzRec) (qzD edge.QzRec)

func (f *QzFar) QzKeys(qzA map[key.QzKey]string)

func (f *QzFar) QzKeysIn(qzA []map[inkey.QzKey]int)

func (f *QzFar) QzVals(qzA map[string]val.QzRec)

func (f *QzFar) QzValsIn(qzA map[string]map[string]*inval.QzRec)

func (f *QzFar) QzArr(qzA []arr.QzRec)

func (f *QzFar) QzArrIn(qzA [][]*inarr.QzRec)

func (f *QzFar) QzRet() (qzA *ret.QzRec)

func (f *QzFar) QzSameName(qzA xparts.QzPart, qzB *yparts.QzPart) (qzC map[string]xparts.QzPart, qzD []yparts.QzPart)

func (f *QzFar) QzOddPath(qzA odd.QzPart, qzB []*odd.QzKind) (qzC map[odd.QzKind]odd.QzPart)

func (f *QzFar) QzLists(qzA own.QzList, qzB own.QzLists, qzC own.QzPointers, qzD own.QzMap) (qzE *own.QzMaps)

func (f *QzFar) QzOwn(qzA QzLocalList, qzB [][]QzLocal) (qzC QzLocalMap)

type QzLocalList []QzLocalItem

type QzLocalItem struct {
	QzX string
}

type QzLocal struct {
	QzX string
}

type QzLocalMap map[QzLocalKey]*QzLocalValue

type QzLocalKey string

type QzLocalValue struct {
	QzX string
}
`},
		acme + "/edge":             {"edge.go": "package edge\n\ntype QzKind string\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/edge/fa":          {"fa.go": "package fa\n\ntype QzKind int\n\ntype QzRec struct {\n\tQzX QzKind\n}\n"},
		acme + "/key":              {"key.go": "package key\n\ntype QzKey string\n"},
		acme + "/inkey":            {"key.go": "package inkey\n\ntype QzKey int\n"},
		acme + "/val":              {"val.go": "package val\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/inval":            {"val.go": "package inval\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/arr":              {"arr.go": "package arr\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/inarr":            {"arr.go": "package inarr\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/ret":              {"ret.go": "package ret\n\ntype QzRec struct {\n\tQzX int\n}\n"},
		acme + "/x/parts":          {"parts.go": "package parts\n\ntype QzPart struct {\n\tQzX int\n}\n"},
		acme + "/y/parts":          {"parts.go": "package parts\n\ntype QzPart struct {\n\tQzY string\n}\n"},
		acme + "/z-1/odd-parts.v2": {"parts.go": "package parts\n\ntype QzPart struct {\n\tQzZ string\n}\n\ntype QzKind string\n"},
		acme + "/own": {"own.go": `package own

type QzList []QzItem

type QzItem struct {
	QzX int
}

type QzLists [][]QzItems

type QzItems struct {
	QzX int
}

type QzPointers []*QzPointed

type QzPointed struct {
	QzX int
}

type QzMap map[QzMapKey]QzMapValue

type QzMapKey string

type QzMapValue struct {
	QzX int
}

type QzMaps struct {
	QzX map[string][]QzInMaps
}

type QzInMaps struct {
	QzX int
}
`},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/edge/far":         {out: "/ts/far-vo.ts"},
		acme + "/edge":             {out: "/ts/edge.ts"},
		acme + "/edge/fa":          {out: "/ts/edge/fa.ts"},
		acme + "/key":              {out: "/ts/key.ts"},
		acme + "/inkey":            {out: "/ts/inkey.ts"},
		acme + "/val":              {out: "/ts/val.ts"},
		acme + "/inval":            {out: "/ts/inval.ts"},
		acme + "/arr":              {out: "/ts/arr.ts"},
		acme + "/inarr":            {out: "/ts/inarr.ts"},
		acme + "/ret":              {out: "/ts/ret.ts"},
		acme + "/x/parts":          {out: "/ts/x/parts.ts"},
		acme + "/y/parts":          {out: "/ts/y/parts.ts"},
		acme + "/own":              {out: "/ts/own.ts"},
		acme + "/z-1/odd-parts.v2": {out: "/ts/z-1/odd-parts.v2.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/edge/far", services: map[string]string{"/qz/far": "QzFar"}, out: "/ts/far.ts",
		gorpc: []string{"QzFar"}, tsrpc: []string{"QzFar"}}},
}
