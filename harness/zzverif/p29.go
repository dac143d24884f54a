package zzverif

import (
	"strings"

	"github.com/ryanolee/go-chaff/internal/jsonschema"
)

// judge compares the verdict of a built-in validator with the grammar.
func judge(format string, s string) {
	f := jsonschema.FormatValidators[format]
	Check("known-format", f != nil, "the validator is missing")
	if f == nil {
		return
	}
	want := Conforms(format, s)
	Observe("text", s)
	got := f(s)
	Check("accepts-well-formed", got || !want, format+" rejects a well-formed text")
	Check("rejects-malformed", !got || want, format+" accepts a malformed text")
	Expect("well-formed")
	Expect("malformed")
	Cover("well-formed", want)
	Cover("malformed", !want)
}

// over puts symbolic bytes over parts of a text.
func over(text string, at, n int, alphabet string) string {
	end := min(at+n, len(text))
	return text[:at] + TextN("byte", end-at, alphabet) + text[end:]
}

func H_P29_date() {
	switch Choice("part", 4) {
	case 0:
		judge("date", over("2000-02-29", 0, 4, "0123456789-+"))
	case 1:
		judge("date", over("2023-02-28", 4, 6, "01239-+"))
	case 2:
		judge("date", over("1900-02-29", 2, 2, "0123456789-"))
	case 3:
		judge("date", Text("text", size(5, 8), "0-2"))
	}
}

func H_P29_time() {
	switch Choice("part", 8) {
	case 6:
		judge("time", over("12:34:56+23:59", 8, 4, "+-012349:"))
	case 7:
		judge("time", over("12:34:56-23:59", 10, 4, "3:05689"))
	case 0:
		judge("time", over("12:34:56Z", 0, size(5, 8), "0123456:+-9"))
	case 1:
		judge("time", over("23:59:60Z", 3, 6, "056:Zz.9+"))
	case 2:
		judge("time", "23:59:5"+Text("rest", size(4, 6), "09.Zz+-:"))
	case 3:
		judge("time", over("12:34:56.7+08:15", 8, 4, ".+-0129Z:"))
	case 4:
		judge("time", over("12:34:60+08:15", 0, 5, "0125:+"))
	case 5:
		judge("time", over("00:29:60-23:30", 9, 5, "0235:+"))
	}
}

func H_P29_dateTime() {
	switch Choice("part", 3) {
	case 0:
		judge("date-time", over("2000-02-29T23:59:59Z", 8, 6, "0129T t:-"))
	case 1:
		judge("date-time", "2000-01-01T00:00:0"+Text("rest", size(3, 5), "09Z+.:"))
	case 2:
		judge("date-time", Text("text", 4, "0T-Z"))
	}
}

func H_P29_duration() {
	judge("duration", "P"+Text("text", size(5, 7), "0YMDTHSWP"))
}

func H_P29_durationOther() {
	judge("duration", Text("text", size(3, 5), "P1.DT-+,Hm"))
}

func H_P29_ipv4() {
	switch Choice("part", 3) {
	case 0:
		judge("ipv4", Text("text", size(4, 5), "0125.+-")+".0.1")
	case 1:
		judge("ipv4", over("192.168.255.255", 8, 7, "0256."))
	case 2:
		judge("ip-address", "1.2.3"+Text("text", size(4, 5), "01.-9 "))
	}
}

func H_P29_ipv6() {
	switch Choice("part", 4) {
	case 0:
		judge("ipv6", "::"+Text("text", size(3, 4), ":1fg.%"))
	case 1:
		judge("ipv6", over("1:2:3:4:5:6:7:8", 11, 4, ":08f."))
	case 2:
		judge("ipv6", "1:2:3:4:5:6:1.2.3"+Text("text", size(3, 4), ".012:"))
	case 3:
		judge("ipv6", "::1234"+Text("text", 2, "5:%a"))
	}
}

func H_P29_uuid() {
	const u = "0123abcd-89ab-cdef-ABCD-0123456789fF"
	switch Choice("part", 4) {
	case 0:
		judge("uuid", over(u, Choice("at", 34), 2, "-09afAFgG{ "))
	case 1:
		judge("uuid", u[:36-Choice("missing", 6)])
	case 2:
		judge("uuid", u+Text("more", 1, "0-"))
	case 3:
		judge("uuid", Text("text", 3, "0-"))
	}
}

func H_P29_hostname() {
	switch Choice("part", 4) {
	case 0:
		judge("hostname", Text("text", size(5, 6), "aZ0-._"))
	case 1:
		judge("hostname", strings.Repeat("a", 60)+Text("text", size(4, 5), "a-."))
	case 2:
		judge("hostname", strings.Repeat("abcdefg.", 31)+Text("text", size(6, 7), "a."))
	case 3:
		judge("hostname", TextN("text", 2, "\x00 a\x80\xffé/@[`{:z-9"))
	}
}

func H_P29_email() {
	switch Choice("part", 9) {
	case 5:
		judge("email", "a@["+TextN("inner", 1, "1:a]")+".0.0.1"+Text("end", 2, "]1.b"))
	case 6:
		judge("email", Text("local", size(2, 3), "a.@ (\"")+[]string{"@[1.2.3.4]", "@[IPv6:::1]"}[Choice("domain", 2)])
	case 7:
		judge("email", "a@["+[]string{"IPv6:", "ipv6:", ""}[Choice("prefix", 3)]+"::"+Text("inner", size(2, 3), ":1.%g")+"]")
	case 8:
		judge("email", "a@"+Text("domain", 2, "[]1"))
	case 0:
		judge("email", Text("local", size(3, 4), "a.@+ (")+"@b.c")
	case 1:
		judge("email", "a@"+Text("domain", size(4, 5), "b-.@"))
	case 2:
		judge("email", strings.Repeat("a", 62)+Text("local", 3, "a")+"@b")
	case 3:
		judge("email", Text("text", 4, "@a."))
	case 4:
		judge("email", TextN("local", 1, " ,;:a0!#~_-\t")+"x@b")
	}
}

func H_P29_pointer() {
	judge([]string{"json-pointer", "relative-json-pointer"}[Choice("format", 2)], Text("text", size(4, 6), "/~019#a"))
}

func H_P29_period() {
	judge("period", []string{"P1D/", "2000-01-01T00:00:00Z/", "/", ""}[Choice("from", 4)]+[]string{"P1D", "2000-01-01T00:00:00Z", "", "/", "PT"}[Choice("to", 5)])
}

// H_P29_anything: no text of any form makes a validator panic.
func H_P29_anything() {
	names := []string{"date-time", "date", "time", "duration", "period", "hostname", "email", "ipv4", "uuid", "json-pointer", "relative-json-pointer"}
	f := jsonschema.FormatValidators[names[Choice("format", len(names))]]
	if f == nil {
		return
	}
	switch Choice("kind", 3) {
	case 0:
		f(Text("text", size(3, 4), "P1T:-.@/+Z"))
	case 1:
		f(Text("text", 2, "1T:.@") + "0:00:00.0+00:00"[:Choice("rest", 16)])
	case 2:
		f([]any{nil, true, 1, 1.5, []any{}, map[string]any{}}[Choice("value", 6)])
	}
	Expect("finished")
	Cover("finished", true)
}
