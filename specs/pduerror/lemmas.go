package pduerror

import "strconv"

func zvErrorText(e Error) string {
	switch e {
	case 0:
		return "NoError"
	case 1:
		return "TooBig"
	case 2:
		return "NoSuchName"
	case 3:
		return "BadValue"
	case 4:
		return "ReadOnly"
	case 5:
		return "GenError"
	case 6:
		return "NoAccess"
	case 7:
		return "WrongType"
	case 8:
		return "WrongLength"
	case 9:
		return "WrongEncoding"
	case 10:
		return "WrongValue"
	case 11:
		return "NoCreation"
	case 12:
		return "InconsistentValue"
	case 13:
		return "ResourceUnavailable"
	case 14:
		return "CommitFailed"
	case 15:
		return "UndoFailed"
	case 16:
		return "AuthorizationError"
	case 17:
		return "NotWritable"
	case 18:
		return "InconsistentName"
	case 256:
		return "OpenFailed"
	case 257:
		return "NotOpened"
	case 258:
		return "IndexWrongType"
	case 259:
		return "IndexAlreadyAllocated"
	case 260:
		return "IndexNonAvailable"
	case 261:
		return "IndexNotAllocated"
	case 262:
		return "UnsupportedContext"
	case 263:
		return "DuplicateRegistration"
	case 264:
		return "UnknownRegistration"
	case 265:
		return "UnknownAgentCaps"
	case 266:
		return "ParseError"
	case 267:
		return "RequestDenied"
	case 268:
		return "ProcessingError"
	}
	return "Error(" + strconv.FormatInt(int64(e), 10) + ")"
}

// C09
func zlErrorText(e Error) {
	zvInline("Error.String")
	// every known error separately, then all the others at once
	for c := Error(0); c <= 268; c++ {
		if c == 19 {
			c = 256
		}
		if e == c {
			zvAssertEq("every error of RFC 2741 and RFC 3416 prints its name", c.String(), zvErrorText(c))
			return
		}
	}
	zvAssertEq("every other error prints its number", e.String(), zvErrorText(e))
}
