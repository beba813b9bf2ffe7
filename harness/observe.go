package main

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"io"
	"runtime/debug"
	"sort"
	"time"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

func certNm(c *x509.Certificate) string {
	if c == nil {
		return "nil"
	}
	if n, ok := certName[string(c.Raw)]; ok {
		return n
	}
	return "?"
}

func chainNames(cc [][]*x509.Certificate) [][]string {
	out := [][]string{}
	for _, ch := range cc {
		l := []string{}
		for _, c := range ch {
			l = append(l, certNm(c))
		}
		out = append(out, l)
	}
	return out
}

func algNm(a signingblock.SignatureAlgorithm) string {
	if n, ok := algoName[uint32(a)]; ok {
		return n
	}
	return fmt.Sprintf("0x%x", uint32(a))
}

func lineage(l *signingblock.V3SigningLineage) OLin {
	o := OLin{Nodes: []ONode{}}
	if l == nil {
		return o
	}
	o.Min = int(l.MinSdkVersion)
	for _, n := range l.Nodes {
		o.Nodes = append(o.Nodes, ONode{certNm(n.SigningCert), algNm(n.ParentSigAlgorithm), algNm(n.SigAlgorithm), int(n.Flags)})
	}
	return o
}

func extraNames(m map[signingblock.BlockId][]byte, want map[string][]byte) []string {
	out := []string{}
	for id, v := range m {
		n, ok := blockName[uint32(id)]
		if !ok {
			n = fmt.Sprintf("0x%x", uint32(id))
		}
		if w, ok := want[n]; want != nil && (!ok || !bytes.Equal(w, v)) {
			n += "!changed"
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func stampObs(s *signingblock.SourceStampResult) OStamp {
	o := OStamp{St: "nil", Lin: []ONode{}, Cert: "none"}
	if s == nil {
		return o
	}
	switch {
	case len(s.Errors) == 0 && len(s.Warnings) == 0:
		o.St = "ok"
	case len(s.Errors) == 0:
		o.St = "warn"
	default:
		o.St = "err"
		for _, e := range s.Errors {
			if _, ok := e.(*signingblock.SourceStampCertMismatchError); ok {
				o.St = "mismatch"
			}
		}
	}
	if s.Cert != nil {
		o.Cert = certNm(s.Cert)
	}
	if o.St == "ok" || o.St == "warn" {
		if !s.SigningTime.IsZero() {
			o.Time = int(s.SigningTime.Unix())
		}
		for _, n := range s.Lineage {
			o.Lin = append(o.Lin, ONode{certNm(n.Cert), algNm(n.ParentAlgo), algNm(n.Algo), int(n.Flags)})
		}
	}
	return o
}

func frostObs(f *signingblock.FrostingResult) string {
	switch {
	case f == nil:
		return "nil"
	case f.Error == nil:
		return "ok"
	case f.Error == signingblock.ErrFrostingInvalidSignature:
		return "sig"
	case f.Error == signingblock.ErrFrostingDigestMismatch:
		return "digest"
	}
	return "err"
}

func emptyO(call string, min, max int) O {
	return O{Call: call, Min: min, Max: max, Res: "rej", Certs: [][]string{}, Lin: OLin{Nodes: []ONode{}}, Extra: []string{},
		V3Certs: [][]string{}, V3Lin: OLin{Nodes: []ONode{}}, Stamp: OStamp{St: "nil", Cert: "none", Lin: []ONode{}}, Frost: "nil"}
}

// details copies what a signing block result says; certificates and lineage only if it was accepted.
func (o *O) details(r *signingblock.VerificationResult, accepted bool, want map[string][]byte) {
	if r == nil {
		return
	}
	if accepted {
		o.Lin = lineage(r.SigningLineage)
		if v3 := r.ExtraResults[3]; v3 != nil {
			o.V3Certs = chainNames(v3.Certs)
			o.V3Lin = lineage(v3.SigningLineage)
		}
	}
	o.Extra = extraNames(r.ExtraBlocks, want)
	o.Stamp = stampObs(r.SourceStamp)
	o.Frost = frostObs(r.Frosting)
}

func blockO(min, max int, r *signingblock.VerificationResult, err error, want map[string][]byte) O {
	o := emptyO("block", min, max)
	switch {
	case err == nil:
		o.Res = "acc"
		o.Scheme = r.SchemeId
		o.Certs = chainNames(r.Certs)
	case signingblock.IsSigningBlockNotFoundError(err):
		o.Res = "notfound"
		o.Msg = err.Error()
	default:
		o.Msg = err.Error()
	}
	o.details(r, o.Res == "acc", want)
	return o
}

func verifyO(min, max int, r apkverifier.Result, err error, want map[string][]byte) O {
	o := emptyO("verify", min, max)
	switch {
	case err == nil:
		o.Res = "acc"
	case err == apkverifier.ErrMixedDexApkFile:
		o.Res = "dex"
	default:
		o.Msg = err.Error()
		return o
	}
	o.Scheme = r.SigningSchemeId
	o.Certs = chainNames(r.SignerCerts)
	o.details(r.SigningBlockResult, true, want)
	return o
}

func extractO(certs [][]*x509.Certificate, err error) O {
	o := emptyO("extract", -1, maxInt)
	if err == nil {
		o.Res = "acc"
		o.Certs = chainNames(certs)
	} else {
		o.Msg = err.Error()
	}
	return o
}

type guarded struct {
	panicked string
	hang     bool
}

// guard runs f, turning panics and hangs into values.
func guard(limit time.Duration, f func()) (g guarded) {
	done := make(chan guarded, 1)
	go func() {
		var r guarded
		defer func() {
			if p := recover(); p != nil {
				r.panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			done <- r
		}()
		f()
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case g = <-done:
	case <-t.C:
		g.hang = true
	}
	return
}

const callLimit = 60 * time.Second

// callOn makes one call of the public API on a reader.
func callOn(rd io.ReadSeeker, zip *apkparser.ZipReader, call string, min, max int, want map[string][]byte) (o O) {
	var got O
	g := guard(callLimit, func() {
		switch call {
		case "verify":
			var r apkverifier.Result
			var err error
			if min == -1 && max == maxInt {
				r, err = apkverifier.VerifyReader(rd, zip)
			} else {
				r, err = apkverifier.VerifyWithSdkVersionReader(rd, zip, int32(min), int32(max))
			}
			got = verifyO(min, max, r, err, want)
		case "block":
			r, _, err := signingblock.VerifySigningBlockReaderWithZip(rd, int32(min), int32(max), zip)
			got = blockO(min, max, r, err, want)
		case "extract":
			c, err := apkverifier.ExtractCertsReader(rd, zip)
			got = extractO(c, err)
		default:
			panic("harness: call " + call)
		}
	})
	if g.panicked == "" && !g.hang {
		got.Call, got.Min, got.Max = call, min, max
		return got
	}
	o = emptyO(call, min, max)
	o.Res, o.Msg = "panic", g.panicked
	if g.hang {
		o.Res = "hang"
	}
	return o
}

func observe(b *built, call string, min, max int) O {
	return callOn(bytes.NewReader(b.data), nil, call, min, max, b.blocks)
}
