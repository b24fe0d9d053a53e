ALL=[]
E="error.go"; C="clienterror.go"; H="httperror.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-elemhelper",[(E,"""	errType := reflect.TypeOf(err)
	errElem := errType
	if errType.Kind() == reflect.Ptr {
		errElem = errType.Elem()
	}

	inst := &Error{
		Msg:  err.Error(),
		Type: errType.String(),
		Pkg:  errElem.PkgPath(),
		Data: err,
	}
""","""	typ, pkg := typeNames(reflect.TypeOf(err))
	inst := new(Error)
	inst.Msg = err.Error()
	inst.Type = typ
	inst.Pkg = pkg
	inst.Data = err
"""),(E,"// As interface","""func typeNames(t reflect.Type) (name, pkg string) {
	name = t.String()
	if t.Kind() == reflect.Ptr {
		return name, t.Elem().PkgPath()
	}
	return name, t.PkgPath()
}

// As interface""")],[]),
 ("r-trim",[(E,"""		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
""","""		if suffix := ": " + unwrappedErr.Error(); strings.HasSuffix(inst.Msg, suffix) {
			inst.Msg = inst.Msg[:len(inst.Msg)-len(suffix)]
		}
""")],[]),
 ("r-switch",[(E,"""	if v, ok := err.(*Error); ok { //nolint:errorlint
		return v
	}
""","""	switch v := err.(type) { //nolint:errorlint
	case *Error:
		return v
	}
""")],[]),
 ("r-is",[(E,"""	if (e.Msg == err.Error() || e.Error() == err.Error()) &&
		errType.String() == e.Type &&
		errElem.PkgPath() == e.Pkg {
		return true
	}

	return false
}

// Error""","""	if errType.String() != e.Type || errElem.PkgPath() != e.Pkg {
		return false
	}
	text := err.Error()
	return text == e.Error() || text == e.Msg
}

// Error""")],[]),
 ("r-errorstr",[(E,"""	msg := e.Msg
	if e.ErrCause != nil {
		msg += ": " + e.ErrCause.Error()
	}
	return msg""","""	if e.ErrCause == nil {
		return e.Msg
	}
	return fmt.Sprintf("%s: %s", e.Msg, e.ErrCause.Error())""")],[]),
 ("r-unwrap",[(E,"""	if e != nil && e.ErrCause != nil {
		return e.ErrCause
	}
	return nil
}

// Is""","""	if e == nil || e.ErrCause == nil {
		return nil
	}
	return e.ErrCause
}

// Is""")],[]),
 ("r-as",[(E,"""		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
			fmt.Printf("ERROR: failed to decode error data\\n%+v", decodeErr)
			return false
		} else {
			return true
		}
""","""		decodeErr := mapstructure.Decode(e.Data, &err)
		if decodeErr != nil {
			fmt.Printf("ERROR: failed to decode error data\\n%+v", decodeErr)
		}
		return decodeErr == nil
""")],[]),
 ("r-clienterr",[(C,"""	if e != nil && e.error != nil {
		return e.error
	}
	return nil""","""	if e == nil {
		return nil
	}
	return e.error""")],[]),
 ("r-httperr",[(H,'fmt.Sprintf("[%d] %s", e.StatusCode, e.error.Error())','"[" + strconv.Itoa(e.StatusCode) + "] " + e.error.Error()'),(H,'	"fmt"\n','	"strconv"\n')],[]),
 ("r-stack",[(E,"""	if _, ok := err.(interface {
		StackTrace() errors.StackTrace
	}); ok && errors.Unwrap(err) != nil {
		err = errors.Unwrap(err)
	}""","""	type stackTracer interface {
		StackTrace() errors.StackTrace
	}
	if _, ok := err.(stackTracer); ok {
		if cause := errors.Unwrap(err); cause != nil {
			err = cause
		}
	}""")],[]),
 # --- breaking
 ("m-nostack",[(E,"ok && errors.Unwrap(err) != nil {","ok && errors.Unwrap(err) == nil {")],"E01"),
 ("m-keepmsg",[(E,"""		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
""","		inst.Msg = strings.TrimSpace(inst.Msg)\n")],"E01"),
 ("m-trimnosep",[(E,'strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())','strings.TrimSuffix(inst.Msg, unwrappedErr.Error())')],"E01"),
 ("m-trimidx",[(E,'inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())','if i := strings.Index(inst.Msg, ": "); i >= 0 {\n\t\t\tinst.Msg = inst.Msg[:i]\n\t\t}')],"E01"),
 ("m-replace",[(E,'strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())','strings.Replace(inst.Msg, ": "+unwrappedErr.Error(), "", 1)')],"E01"),
 ("m-trimright",[(E,'strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())','strings.TrimRight(inst.Msg, ": "+unwrappedErr.Error())')],"E01"),
 ("m-typename",[(E,"Type: errType.String()","Type: errElem.String()")],"E01"),
 ("m-typename2",[(E,"Type: errType.String()","Type: errType.Name()")],"E01"),
 ("m-pkg",[(E,"Pkg:  errElem.PkgPath()","Pkg:  errType.PkgPath() + errElem.PkgPath()[:0]")],"E01"),
 ("m-data",[(E,"Data: err,","Data: err.Error(),")],"E01"),
 ("m-cause1",[(E,"inst.ErrCause = NewError(unwrappedErr)","inst.ErrCause = NewError(errors.Cause(err))")],"E01"),
 ("m-causenone",[(E,"if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {","if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil && unwrappedErr.Error() != \"\" {")],"E01"),
 ("m-reconv",[(E,"	if v, ok := err.(*Error); ok { //nolint:errorlint\n		return v","	if v, ok := err.(*Error); ok && v.ErrCause == nil { //nolint:errorlint\n		return v")],"E01"),
 ("m-as-errors",[(E,"""	if v, ok := err.(*Error); ok { //nolint:errorlint
		return v
	}
""","""	var v *Error
	if errors.As(err, &v) {
		return v
	}
""")],"E01"),
 ("m-is-type",[(E,"		errType.String() == e.Type &&\n		errElem.PkgPath() == e.Pkg {","		errElem.PkgPath() == e.Pkg {")],"E02"),
 ("m-is-msgonly",[(E,"(e.Msg == err.Error() || e.Error() == err.Error())","e.Msg == err.Error()")],"E02"),
 ("m-is-full",[(E,"(e.Msg == err.Error() || e.Error() == err.Error())","e.Error() == err.Error()")],"E02"),
 ("m-is-prefix",[(E,"(e.Msg == err.Error() || e.Error() == err.Error())","(strings.HasPrefix(err.Error(), e.Msg) || e.Error() == err.Error())")],"E02"),
 ("m-is-nil",[(E,"	if e == nil || err == nil {\n		return false\n	}\n\n	errType","	if e == nil {\n		return false\n	}\n	if err == nil {\n		return e.Msg == \"\"\n	}\n	errType")],"E02"),
 ("m-as-nil",[(E,"	if e == nil || err == nil {\n		return false\n	}\n	errType","	if err == nil {\n		return false\n	}\n	errType")],"E02"),
 ("m-as-pkg",[(E,"if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {","if errType.String() == e.Type && errElem != nil {")],"E02"),
 ("m-as-true",[(E,"			return false\n		} else {","			return true\n		} else {")],"E02"),
 ("m-as-elem",[(E,"if errType.String() == e.Type &&","if errElem.String() == strings.TrimPrefix(e.Type, \"*\") &&")],"E02"),
 ("m-unwrap-self",[(E,"		return e.ErrCause\n	}\n	return nil","		return e.ErrCause.Unwrap()\n	}\n	return nil")],"E02"),
 ("m-unwrap-typednil",[(E,"	if e != nil && e.ErrCause != nil {\n		return e.ErrCause\n	}\n	return nil","	return e.ErrCause")],"E02"),
 ("m-err-sep",[(E,'msg += ": " +','msg += " " +')],"E02"),
 ("m-err-causemsg",[(E,'msg += ": " + e.ErrCause.Error()','msg += ": " + e.ErrCause.Msg')],"E02"),
 ("m-ce-unwrap",[(C,"		return e.error\n	}\n	return nil","		return nil\n	}\n	return nil")],"C05"),
 ("m-ce-cause",[(C,"		return e.error\n","		return errors.Unwrap(e.error)\n"),(C,"package gotsrpc\n","package gotsrpc\n\nimport \"errors\"\n")],"C05"),
 ("m-he-code",[(H,"StatusCode: code,","StatusCode: code / 100 * 100,")],"C05"),
 ("m-he-body",[(H,"Body:       msg,","Body:       strings.TrimSpace(msg),"),(H,'	"fmt"\n','	"fmt"\n	"strings"\n')],"C05"),
 ("m-he-msg",[(H,'fmt.Sprintf("[%d] %s", e.StatusCode, e.error.Error())','fmt.Sprintf("[%d] %s", e.StatusCode, http.StatusText(e.StatusCode))'),(H,'	"fmt"\n','	"fmt"\n	"net/http"\n')],"C05"),
 ("m-ce-flat",[(C,"		error: err,","		error: errors.New(err.Error()),"),(C,"package gotsrpc\n","package gotsrpc\n\nimport \"errors\"\n")],"C05"),
]
