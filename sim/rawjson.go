package main

// Plans hold paths that need not be valid UTF-8, and are kept as JSON: bytes
// that are no part of a character are written as U+F700 + the byte.

import (
	"encoding/json"
	"strings"
	"unicode/utf8"
)

const rawBase = 0xf700

func escRaw(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var sb strings.Builder
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			sb.WriteRune(rawBase + rune(s[0]))
		} else {
			sb.WriteString(s[:n])
		}
		s = s[n:]
	}
	return sb.String()
}

func unescRaw(s string) string {
	if !strings.ContainsFunc(s, func(c rune) bool { return rawBase <= c && c < rawBase+256 }) {
		return s
	}
	var b []byte
	for _, c := range s {
		if rawBase <= c && c < rawBase+256 {
			b = append(b, byte(c-rawBase))
		} else {
			b = utf8.AppendRune(b, c)
		}
	}
	return string(b)
}

func mapStrings(a []string, f func(string) string) []string {
	if a == nil {
		return nil
	}
	b := make([]string, len(a))
	for i, s := range a {
		b[i] = f(s)
	}
	return b
}

type plainEdit Edit

func (e Edit) MarshalJSON() ([]byte, error) {
	e.Path, e.To = escRaw(e.Path), escRaw(e.To)
	return json.Marshal(plainEdit(e))
}

func (e *Edit) UnmarshalJSON(b []byte) error {
	err := json.Unmarshal(b, (*plainEdit)(e))
	e.Path, e.To = unescRaw(e.Path), unescRaw(e.To)
	return err
}

type plainSpec ProcSpec

func (p *ProcSpec) MarshalJSON() ([]byte, error) {
	q := plainSpec(*p)
	q.Args, q.Cwd = mapStrings(q.Args, escRaw), escRaw(q.Cwd)
	return json.Marshal(&q)
}

func (p *ProcSpec) UnmarshalJSON(b []byte) error {
	err := json.Unmarshal(b, (*plainSpec)(p))
	p.Args, p.Cwd = mapStrings(p.Args, unescRaw), unescRaw(p.Cwd)
	return err
}

type plainFault Fault

func (f Fault) MarshalJSON() ([]byte, error) {
	f.Path = escRaw(f.Path)
	return json.Marshal(plainFault(f))
}

func (f *Fault) UnmarshalJSON(b []byte) error {
	err := json.Unmarshal(b, (*plainFault)(f))
	f.Path = unescRaw(f.Path)
	return err
}
