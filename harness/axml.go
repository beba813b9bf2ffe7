package main

// Writer for binary AndroidManifest.xml.

import (
	"bytes"
	"encoding/binary"
	"unicode/utf16"
)

type axmlAttr struct {
	name string
	str  string // if isStr
	isS  bool
	val  int32
}

type axmlTag struct {
	name  string
	attrs []axmlAttr
}

func le(vs ...interface{}) []byte {
	var b bytes.Buffer
	for _, v := range vs {
		must(binary.Write(&b, binary.LittleEndian, v))
	}
	return b.Bytes()
}

func buildAxml(tags []axmlTag) []byte {
	var strs []string
	idx := map[string]uint32{}
	add := func(s string) uint32 {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = uint32(len(strs))
		strs = append(strs, s)
		return idx[s]
	}
	const none = uint32(0xffffffff)
	var body []byte
	for _, t := range tags {
		var at []byte
		for _, a := range t.attrs {
			ni := add(a.name)
			if a.isS {
				si := add(a.str)
				at = append(at, le(none, ni, si, uint16(8), uint8(0), uint8(3), si)...)
			} else {
				at = append(at, le(none, ni, none, uint16(8), uint8(0), uint8(0x10), a.val)...)
			}
		}
		p := le(none, add(t.name), uint16(20), uint16(20), uint16(len(t.attrs)), uint16(0), uint16(0), uint16(0))
		p = append(p, at...)
		body = append(body, le(uint16(0x0102), uint16(16), uint32(16+len(p)), uint32(1), none)...)
		body = append(body, p...)
	}
	for i := len(tags) - 1; i >= 0; i-- {
		body = append(body, le(uint16(0x0103), uint16(16), uint32(24), uint32(1), none, none, add(tags[i].name))...)
	}
	var offs, data []byte
	for _, s := range strs {
		offs = append(offs, le(uint32(len(data)))...)
		u := utf16.Encode([]rune(s))
		data = append(data, le(uint16(len(u)))...)
		data = append(data, le(u)...)
		data = append(data, 0, 0)
	}
	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	st := le(uint16(1), uint16(28), uint32(28+len(offs)+len(data)), uint32(len(strs)), uint32(0), uint32(0), uint32(28+len(offs)), uint32(0))
	st = append(st, offs...)
	st = append(st, data...)
	out := le(uint16(3), uint16(8), uint32(8+len(st)+len(body)))
	out = append(out, st...)
	return append(out, body...)
}

func buildManifest(a AM) []byte {
	switch a.St {
	case "bad":
		return []byte("\x03\x00\x08\x00\xff\x00\x00\x00garbage garbage")
	case "text":
		return []byte("<?xml version=\"1.0\"?><manifest/>")
	}
	attr := func(name string, v int) []axmlAttr {
		switch v {
		case -1:
			return nil
		case -2:
			return []axmlAttr{{name: name, isS: true, str: "Q"}}
		}
		return []axmlAttr{{name: name, val: int32(v)}}
	}
	man := axmlTag{name: "manifest", attrs: append([]axmlAttr{{name: "package", isS: true, str: "a.b"}}, attr("targetSandboxVersion", a.Sbx)...)}
	tags := []axmlTag{man}
	if a.Min != -1 || a.Tgt != -1 {
		tags = append(tags, axmlTag{name: "uses-sdk", attrs: append(attr("minSdkVersion", a.Min), attr("targetSdkVersion", a.Tgt)...)})
	}
	tags = append(tags, axmlTag{name: "application"})
	return buildAxml(tags)
}
