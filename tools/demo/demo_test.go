package apkverifier

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/avast/apkverifier/signingblock"
)

// Each case: one APK, one call, and the outcome the correct code gives.
type demoCase struct {
	Apk, Call string
	Min, Max  int32
	Want      string
}

func demoCerts(cc [][]*x509.Certificate) string {
	s := ""
	for _, c := range cc {
		s += "["
		for _, x := range c {
			h := sha256.Sum256(x.Raw)
			s += hex.EncodeToString(h[:4]) + " "
		}
		s += "]"
	}
	return s
}

func demoOutcome(b []byte, c demoCase) string {
	blk := func(r *signingblock.VerificationResult) (s string) {
		if r == nil {
			return
		}
		if l := r.SigningLineage; l != nil {
			s += fmt.Sprintf(" lineage=%d", len(l.Nodes))
		}
		if x := r.SourceStamp; x != nil {
			s += fmt.Sprintf(" stamp=%v", len(x.Errors) == 0 && len(x.Warnings) == 0)
		}
		return
	}
	switch c.Call {
	case "extract":
		cc, err := ExtractCertsReader(bytes.NewReader(b), nil)
		return fmt.Sprintf("ok=%v certs=%s", err == nil, demoCerts(cc))
	case "block":
		r, _, err := signingblock.VerifySigningBlockReader(bytes.NewReader(b), c.Min, c.Max)
		if err != nil {
			return fmt.Sprintf("ok=false notfound=%v", signingblock.IsSigningBlockNotFoundError(err))
		}
		return fmt.Sprintf("ok=true scheme=%d certs=%s", r.SchemeId, demoCerts(r.Certs)) + blk(r)
	}
	r, err := VerifyWithSdkVersionReader(bytes.NewReader(b), nil, c.Min, c.Max)
	if err != nil {
		return fmt.Sprintf("ok=false dex=%v", err == ErrMixedDexApkFile)
	}
	return fmt.Sprintf("ok=true scheme=%d certs=%s", r.SigningSchemeId, demoCerts(r.SignerCerts)) + blk(r.SigningBlockResult)
}

func TestZZDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	raw, err := os.ReadFile(filepath.Join(dir, "cases.json"))
	if err != nil {
		t.Fatal(err)
	}
	var cases []demoCase
	if err := json.Unmarshal(raw, &cases); err != nil {
		t.Fatal(err)
	}
	for i := range cases {
		c := &cases[i]
		b, err := os.ReadFile(filepath.Join(dir, c.Apk))
		if err != nil {
			t.Fatal(err)
		}
		got := demoOutcome(b, *c)
		if os.Getenv("DEMO_RECORD") != "" {
			c.Want = got
			fmt.Println(c.Apk, c.Call, c.Min, c.Max, got)
		} else if got != c.Want {
			t.Errorf("%s %s <%d;%d>: got %s, want %s", c.Apk, c.Call, c.Min, c.Max, got, c.Want)
		}
	}
	if os.Getenv("DEMO_RECORD") != "" {
		j, _ := json.MarshalIndent(cases, "", " ")
		os.WriteFile(filepath.Join(dir, "cases.json"), append(j, '\n'), 0644)
	}
}
