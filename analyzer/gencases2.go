package main

// genWide: long signatures, names that contain each other, combinations of tags,
// constants in every position, nested types.
var genWide = &genInput{
	name: "wide", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/wide": {
			"qza.go": `package wide

import (
	"net/http"
	"time"

	"example.com/acme/wide/sub"
)

const (
	QzEarly    QzKind = "early"
	QzOtherOne QzGrade = 7
)

type QzWide struct{}

func (w *QzWide) QzMany(qza string, qzb int, qzc bool, qzd []string, qze map[string]int, qzf *int, qzg QzKind, qzh time.Time, qzi QzRec, qzj *QzRec, qzk []QzRec, qzl interface{}, qzm float64) (string, int, bool, []string, map[string]int, *int, QzKind, time.Time, QzRec, *QzRec, []QzRec, interface{}, float64)

func (w *QzWide) QzManySame(qza, qzb, qzc, qzd, qze, qzf, qzg, qzh, qzi, qzj, qzk, qzl string) (qzm, qzn, qzo, qzp, qzq, qzr, qzs, qzt, qzu, qzv, qzw, qzx string)

func (w *QzWide) QzManySession(hw http.ResponseWriter, hr *http.Request, qza string, qzb int, qzc bool, qzd []string, qze map[string]int, qzf *int) (qzg string, qzh int, qzi bool, qzj []string, qzk map[string]int, qzl *int)

func (w *QzWide) QzSessionNoRet(hw http.ResponseWriter, hr *http.Request, qza, qzb string)

func (w *QzWide) QzNameFirst(qzName, qzNameLong, qzNameLonger string) (qzRet, qzRetLong, qzRetLonger string)

func (w *QzWide) QzNameLast(qzNameLonger, qzNameLong, qzName string) (qzRetLonger, qzRetLong, qzRet string)

func (w *QzWide) QzTails(qzUserID, qzID, qzid string, id int) (qzTheUserID, qzTheID string)

func (w *QzWide) QzShort(a, b string, c int) (d, e string)

func (w *QzWide) QzMixedCase(qzÄrger, QzBig, qz_under, qz9 string) (QzOut string, qz_out int)

func (w *QzWide) QzNameFirstMore(qzQzNameFirst string) (qzQzWide string)

func (w *QzWide) QzWide(qzQzWide *QzWide2) (qzOther QzWide2)

func (w *QzWide) QzTwo() (int, int)

func (w *QzWide) QzThree() (int, int, int)

func (w *QzWide) QzArgTwo(qza int) (string, string)

func (w *QzWide) QzSessionTwo(hw http.ResponseWriter, hr *http.Request) (string, string)

func (w *QzWide) QzRetOnly() (qza QzKind)

func (w *QzWide) QzPtrOnly() *QzRec

func (w *QzWide) QzErrOnly(qza string) error

func (w *QzWide) QzErrs(qza string) (*QzFail, error)

func (w *QzWide) QzFails(qza string) (qzb *QzFail, qzc *sub.QzFail, qzd error)

func (w *QzWide) QzNested(qza map[string]map[string]map[string]time.Time, qzb [][][]string, qzc []map[QzKind][]*sub.QzRec, qzd map[sub.QzKind]map[QzKind][]map[string]*QzRec, qze []*time.Time, qzf []*QzKind, qzg []*sub.QzKind) (qzh [][]map[string][][]*QzRec, qzi map[string]*QzKind)

func (w *QzWide) QzStructs(qza QzInlines, qzb *QzInlinesPtr, qzc QzInlinesMixed, qzd QzInlinesChain, qze QzTags, qzf *QzDeep) (qzg QzUnion4, qzh []*sub.QzUnion, qzi map[string]QzUnion4, qzj *QzUnionKinds)

func (w *QzWide) QzKinds(qza QzKind, qzb QzGrade, qzc QzRatio, qzd QzFlag, qze sub.QzKind, qzf QzSplit, qzg QzSame) (qzh []QzPlain)
`,
			"qzb.go": `package wide

import (
	"time"

	"example.com/acme/wide/sub"
)

type QzWide2 struct {
	QzWide   string
	QzWide2  string
	QzWideAt time.Time
}

type QzRec struct {
	QzID     string
	QzIDs    []string
	QzUserID int ` + "`json:\"userId\"`" + `
	QzUser   int ` + "`json:\"user\"`" + `
	Qz       int ` + "`json:\"u\"`" + `
}

type QzFail struct {
	QzMsg string ` + "`json:\"m\"`" + `
}

func (f *QzFail) Error() string

type QzA struct {
	QzFromA string ` + "`json:\"fromA\"`" + `
}

type QzB struct {
	QzFromB *string ` + "`json:\"fromB,omitempty\"`" + `
}

type QzC struct {
	QzFromC []int
}

type QzInlines struct {
	QzA     ` + "`json:\",inline\"`" + `
	*QzB    ` + "`json:\",inline\"`" + `
	sub.QzD ` + "`json:\",inline\"`" + `
	QzOwn   string ` + "`json:\"own\"`" + `
	QzMore  *QzA   ` + "`json:\"more\"`" + `
}

type QzInlinesPtr struct {
	*QzA     ` + "`json:\",inline\"`" + `
	QzC      ` + "`json:\",inline,omitempty\"`" + `
	*sub.QzD ` + "`json:\",inline\"`" + `
}

type QzInlinesMixed struct {
	QzFirst string
	QzC     ` + "`json:\",inline\"`" + `
	QzLast  int ` + "`json:\"last,omitempty\"`" + `
	*QzA    ` + "`json:\",inline\"`" + `
}

type QzInlinesChain struct {
	QzInlines ` + "`json:\",inline\"`" + `
	QzEnd     bool
}

type QzTags struct {
	QzA  string             ` + "`json:\"a,omitempty\" gotsrpc:\"type:Array<boolean>\"`" + `
	QzB  *string            ` + "`json:\"b\" gotsrpc:\"type:boolean | null\"`" + `
	QzC  []string           ` + "`gotsrpc:\"type:string\"`" + `
	QzD  map[string]string  ` + "`json:\",omitempty\" gotsrpc:\"type:string\"`" + `
	QzE  map[string]*QzRec  ` + "`json:\"e,omitempty\" yaml:\"other\"`" + `
	QzF  [][]string         ` + "`json:\"f,omitempty\"`" + `
	QzG  map[string][]string ` + "`json:\"g,omitempty\"`" + `
	QzH  []map[string]*int  ` + "`json:\"h,omitempty\"`" + `
	QzI  *time.Time         ` + "`yaml:\"i\" json:\"i,omitempty\"`" + `
	QzJ  time.Time          ` + "`json:\"j,omitempty\"`" + `
	QzK  *QzKind            ` + "`json:\"k,omitempty\"`" + `
	QzL  *QzKind            ` + "`json:\"l\"`" + `
	QzM  *sub.QzKind        ` + "`json:\"m\"`" + `
	QzN  sub.QzKind         ` + "`json:\"n,omitempty\"`" + `
	QzO  interface{}        ` + "`json:\"o,omitempty\"`" + `
	QzP  *bool              ` + "`json:\"p\"`" + `
	QzQ  bool               ` + "`json:\"q,omitempty\"`" + `
	QzR  string             ` + "`json:\"-\" gotsrpc:\"type:string\"`" + `
	QzS  string             ` + "`json:\"s\" xml:\"-\"`" + `
	QzT  string             ` + "`xml:\"-\"`" + `
	QzU  QzList             ` + "`json:\"u\"`" + `
	QzV  QzList             ` + "`json:\"v,omitempty\"`" + `
	QzW  map[string]QzList  ` + "`json:\"w\"`" + `
	QzX  []QzDict           ` + "`json:\"x,omitempty\"`" + `
	QzY  sub.QzDict         ` + "`json:\"y\"`" + `
	QzZ  *QzRec             ` + "`json:\"z\"`" + `
	Qza, QzAB, QzABC string
}

type QzList []*QzRec

type QzDict map[QzKind]*QzRec

type QzDeep struct {
	QzA struct {
		QzB struct {
			QzC []struct {
				QzD  map[string]*struct {
					QzE *QzOnlyDeep ` + "`json:\"e,omitempty\"`" + `
					QzF QzOnlyDeepKind ` + "`json:\"-\"`" + `
					QzG []QzOnlyDeeper ` + "`json:\"g\"`" + `
				} ` + "`json:\"d\"`" + `
				QzH *struct {
					QzI string
				} ` + "`json:\"h,omitempty\"`" + `
			} ` + "`json:\"c,omitempty\"`" + `
		}
	}
}

type QzOnlyDeep struct {
	QzX int
}

type QzOnlyDeepKind string

type QzOnlyDeeper string

type QzU1 struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'u1'\"`" + `
}

type QzU2 struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'u2'\"`" + `
}

type QzU3 struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'u3'\"`" + `
	QzO *QzUnion4
}

type QzUnion4 struct {
	QzA *QzU1       ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzU2       ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
	QzC *QzU3       ` + "`json:\"c,omitempty\" gotsrpc:\"union\"`" + `
	QzD *sub.QzOnlyU ` + "`json:\"d,omitempty\" gotsrpc:\"union\"`" + `
}

type QzUnionKinds struct {
	QzA *QzKind     ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzSplit    ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
	QzC *sub.QzKind ` + "`json:\"c,omitempty\" gotsrpc:\"union\"`" + `
}
`,
			"qzc.go": `package wide

type QzKind string

const (
	QzKindA     QzKind = "a"
	QzKindAB    QzKind = "ab"
	QzKindABC   QzKind = "abc"
	QzBigKind   QzKind = "big"
	QzBig       QzKind = "bigger"
	QzNoQzKind  QzKind = "no"
	QzKindKind  QzKind = "kk"
	QzSpaced    QzKind = "with space"
	QzUmlaut    QzKind = "äöü"
	QzEmpty     QzKind = ""
	QzUntyped          = "untyped"
	QzUntypedTo        = 1
	QzLate      QzKind = "late"
)

type QzGrade int

const QzGradeOne QzGrade = 1

const QzGradeTwo, QzGradeThree QzGrade = 2, 3

const (
	QzGradeTen     QzGrade = 10
	QzGradeHundred QzGrade = 100
	QzGradeZero    QzGrade = 0
)

type QzRatio float64

const (
	QzRatioHalf QzRatio = 0.5
	QzRatioMore QzRatio = 1.5
)

type QzFlag bool

type QzSplit string

const QzSplitHere QzSplit = "here"

type QzSame int

const (
	QzSameOne   QzSame = 1
	QzSameUno   QzSame = 1
	QzSameOther QzSame = 2
)

type QzPlain string

var QzNoConst QzPlain = "variable"
`,
			"qzd.go": `package wide

const (
	QzSplitThere QzSplit = "there"
	QzKindFar    QzKind  = "far"
)

func qzLocal() {
	const qzInner QzPlain = "inner"
}
`,
		},
		acme + "/wide/sub": {"sub.go": `package sub

type QzKind string

const (
	QzKindA QzKind = "sub a"
	QzKindZ QzKind = "sub z"
)

type QzRec struct {
	QzKind QzKind
}

type QzD struct {
	QzFromD map[string]QzOnlyD
}

type QzOnlyD struct {
	QzX int
}

type QzFail struct {
	QzReason string
}

func (f *QzFail) Error() string

type QzDict map[string]int

type QzOnlyU struct {
	QzT string ` + "`json:\"t\" gotsrpc:\"type:'u4'\"`" + `
}

type QzUnion struct {
	QzA *QzRec   ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	QzB *QzOnlyU ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}
`},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	mappings: map[string]genMapping{
		acme + "/wide":     {out: "/ts/wide/vo.ts"},
		acme + "/wide/sub": {out: "/ts/sub-vo.ts"},
		"time":             {out: "/ts/time.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/wide", services: map[string]string{"/qz/wide": "QzWide"}, out: "/ts/wide/client.ts",
		gorpc: []string{"QzWide"}, tsrpc: []string{"QzWide"}}},
}
