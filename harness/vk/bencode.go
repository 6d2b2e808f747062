package vk

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Bdecode reads a bencoded value: string, int64, []any, map[string]any.
func Bdecode(s string) (v any, rest string, err error) {
	bad := errors.New("not bencoding: " + strconv.Quote(s))
	switch {
	case s == "":
		return nil, "", bad
	case s[0] == 'i':
		n, r, ok := strings.Cut(s[1:], "e")
		x, err := strconv.ParseInt(n, 10, 64)
		if !ok || err != nil {
			return nil, "", bad
		}
		return x, r, nil
	case s[0] == 'l':
		l := []any{}
		for s = s[1:]; ; l = append(l, v) {
			if strings.HasPrefix(s, "e") {
				return l, s[1:], nil
			}
			if v, s, err = Bdecode(s); err != nil {
				return nil, "", err
			}
		}
	case s[0] == 'd':
		d := map[string]any{}
		for s = s[1:]; ; {
			if strings.HasPrefix(s, "e") {
				return d, s[1:], nil
			}
			var k any
			if k, s, err = Bdecode(s); err != nil {
				return nil, "", err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, "", bad
			}
			if _, ok := d[ks]; ok {
				return nil, "", bad
			}
			if v, s, err = Bdecode(s); err != nil {
				return nil, "", err
			}
			d[ks] = v
		}
	}
	n, r, ok := strings.Cut(s, ":")
	x, err := strconv.Atoi(n)
	if !ok || err != nil || x < 0 || x > len(r) {
		return nil, "", bad
	}
	return r[:x], r[x:], nil
}

// Bencode writes what Bdecode reads.
func Bencode(v any) string {
	var s strings.Builder
	switch v := v.(type) {
	case string:
		fmt.Fprintf(&s, "%d:%s", len(v), v)
	case int64:
		fmt.Fprintf(&s, "i%de", v)
	case []any:
		s.WriteString("l")
		for _, x := range v {
			s.WriteString(Bencode(x))
		}
		s.WriteString("e")
	case map[string]any:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s.WriteString("d")
		for _, k := range keys {
			s.WriteString(Bencode(k) + Bencode(v[k]))
		}
		s.WriteString("e")
	}
	return s.String()
}
