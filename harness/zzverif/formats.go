package zzverif

import (
	"net/url"
	"strings"
)

// The grammars of the formats, written from the RFCs.

// Conforms tells whether text follows the grammar of a format; unknown formats allow everything.
func Conforms(format, text string) bool {
	if ok, modelled := FakerConforms(format, text); modelled {
		return ok
	}
	switch format {
	case "date":
		return fullDate(text)
	case "time":
		return fullTime(text)
	case "date-time":
		return len(text) > 11 && (text[10] == 'T' || text[10] == 't') && fullDate(text[:10]) && fullTime(text[11:])
	case "duration":
		return duration(text)
	case "period":
		return period(text)
	case "ipv4", "ip-address":
		return dottedQuad(text)
	case "ipv6":
		return colonGroups(text)
	case "uuid":
		return uuid(text)
	case "hostname", "idn-hostname":
		return hostName(text)
	case "email", "idn-email":
		return mailbox(text)
	case "json-pointer":
		return jsonPointer(text)
	case "relative-json-pointer":
		return relativePointer(text)
	case "uri", "iri":
		u, err := url.Parse(text)
		return err == nil && u.IsAbs()
	case "uri-reference", "uriref", "iri-reference":
		_, err := url.Parse(text)
		return err == nil && strings.IndexByte(text, '\\') < 0
	}
	return true
}

// FakerConforms judges the texts of the faker library, of which only the kind is known.
func FakerConforms(format, text string) (ok bool, modelled bool) { return false, false }

// number reads exactly n digits.
func number(s string, n int) (int, bool) {
	if len(s) != n {
		return 0, false
	}
	v := 0
	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	return v, true
}

func fullDate(s string) bool {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return false
	}
	y, ok1 := number(s[:4], 4)
	m, ok2 := number(s[5:7], 2)
	d, ok3 := number(s[8:], 2)
	if !ok1 || !ok2 || !ok3 || m < 1 || m > 12 || d < 1 {
		return false
	}
	days := 31
	switch m {
	case 4, 6, 9, 11:
		days = 30
	case 2:
		days = 28
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			days = 29
		}
	}
	return d <= days
}

func hourMinute(s string) (int, bool) {
	if len(s) != 5 || s[2] != ':' {
		return 0, false
	}
	h, ok1 := number(s[:2], 2)
	m, ok2 := number(s[3:], 2)
	return h*60 + m, ok1 && ok2 && h <= 23 && m <= 59
}

func fullTime(s string) bool {
	if len(s) < 9 || s[5] != ':' {
		return false
	}
	at, ok := hourMinute(s[:5])
	sec, ok2 := number(s[6:8], 2)
	if !ok || !ok2 || sec > 60 {
		return false
	}
	rest := s[8:]
	if rest[0] == '.' {
		i := 1
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			i++
		}
		if i == 1 {
			return false
		}
		rest = rest[i:]
	}
	if rest == "" {
		return false
	}
	if rest == "Z" || rest == "z" {
		return sec < 60 || at == 23*60+59
	}
	if rest[0] != '+' && rest[0] != '-' {
		return false
	}
	off, ok := hourMinute(rest[1:])
	if !ok {
		return false
	}
	if rest[0] == '+' {
		off = -off
	}
	return sec < 60 || (at+off+1440)%1440 == 23*60+59
}

// units reads numbers with the given units, which may begin anywhere but may not leave any out.
func units(s, names string) (rest string, any bool) {
	next := 0
	for next < len(names) {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == 0 || i == len(s) {
			return s, any
		}
		at := strings.IndexByte(names[next:], s[i])
		if at < 0 || any && at > 0 {
			return s, any
		}
		next += at + 1
		s = s[i+1:]
		any = true
	}
	return s, any
}

func duration(s string) bool {
	if s == "" || s[0] != 'P' {
		return false
	}
	s = s[1:]
	if rest, ok := units(s, "W"); ok && rest == "" {
		return true
	}
	rest, date := units(s, "YMD")
	if rest == "" {
		return date
	}
	if rest[0] != 'T' {
		return false
	}
	rest, clock := units(rest[1:], "HMS")
	return clock && rest == ""
}

func period(s string) bool {
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return false
	}
	from, to := s[:i], s[i+1:]
	moment := func(t string) bool { return Conforms("date-time", t) }
	return moment(from) && (moment(to) || duration(to)) || duration(from) && moment(to)
}

func dottedQuad(s string) bool {
	parts := 0
	for {
		i := 0
		v := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			v = v*10 + int(s[i]-'0')
			i++
			if i > 3 {
				return false
			}
		}
		if i == 0 || v > 255 || i > 1 && s[0] == '0' {
			return false
		}
		parts++
		if i == len(s) {
			return parts == 4
		}
		if s[i] != '.' {
			return false
		}
		s = s[i+1:]
	}
}

func hexDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func uuid(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return false
			}
		} else if !hexDigit(s[i]) {
			return false
		}
	}
	return true
}

func letterDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// hostName has labels of letters, digits and inner hyphens; a final dot is accepted.
func hostName(s string) bool {
	if s != "" && s[len(s)-1] == '.' {
		s = s[:len(s)-1]
	}
	if len(s) > 253 {
		return false
	}
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '.' {
			if !letterDigit(s[i]) && s[i] != '-' {
				return false
			}
			continue
		}
		if i == start || i-start > 63 || s[start] == '-' || s[i-1] == '-' {
			return false
		}
		start = i + 1
	}
	return true
}

// mailbox is a dot-atom at a host name.
// colonGroups reads an IPv6 address.
func colonGroups(s string) bool {
	groups, gap := 0, false
	i := 0
	if strings.HasPrefix(s, "::") {
		gap, i = true, 2
	}
	for i < len(s) {
		n := i
		for n < len(s) && hexDigit(s[n]) {
			n++
		}
		if n < len(s) && s[n] == '.' {
			if !dottedQuad(s[i:]) {
				return false
			}
			groups += 2
			i = len(s)
			break
		}
		if n == i || n-i > 4 {
			return false
		}
		groups++
		i = n
		if i == len(s) {
			break
		}
		if s[i] != ':' {
			return false
		}
		i++
		if i < len(s) && s[i] == ':' {
			if gap {
				return false
			}
			gap = true
			i++
		} else if i == len(s) {
			return false
		}
	}
	return gap && groups < 8 || groups == 8
}

func mailbox(s string) bool {
	at := strings.LastIndexByte(s, '@')
	if at < 1 || at > 64 || len(s) > 254 {
		return false
	}
	local, domain := s[:at], s[at+1:]
	if n := len(domain); n > 1 && domain[0] == '[' && domain[n-1] == ']' {
		inner := domain[1 : n-1]
		if strings.HasPrefix(inner, "IPv6:") {
			if !colonGroups(inner[5:]) {
				return false
			}
		} else if !dottedQuad(inner) {
			return false
		}
	} else if s[len(s)-1] == '.' || !hostName(domain) {
		return false
	}
	for i := 0; i < len(local); i++ {
		if local[i] == '.' {
			if i == 0 || i == len(local)-1 || local[i-1] == '.' {
				return false
			}
		} else if !letterDigit(local[i]) && strings.IndexByte("!#$%&'*+-/=?^_`{|}~", local[i]) < 0 {
			return false
		}
	}
	return true
}

func jsonPointer(s string) bool {
	if s != "" && s[0] != '/' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && (i+1 == len(s) || s[i+1] != '0' && s[i+1] != '1') {
			return false
		}
	}
	return true
}

func relativePointer(s string) bool {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 || i > 1 && s[0] == '0' {
		return false
	}
	return s[i:] == "#" || jsonPointer(s[i:])
}
