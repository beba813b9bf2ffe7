package main

// The abstract APK: what the specification talks about.  Everything here is JSON, written and read by
// both TLC and this harness.

type FileE struct {
	N   string `json:"n"`
	C   string `json:"c"` // content token
	Z   string `json:"z"` // store | deflate
	Dir bool   `json:"dir"`
}

type AM struct {
	St  string `json:"st"` // ok absent bad text
	Min int    `json:"min"`
	Tgt int    `json:"tgt"`
	Sbx int    `json:"sbx"` // -1 absent, -2 malformed
}

type Zip struct {
	Prefix  string `json:"prefix"`  // none dex dexv junk
	Comment string `json:"comment"` // none text magic max fake
	Eocd    string `json:"eocd"`    // ok zip64 cdgap cdpast comlen trail
	Align   bool   `json:"align"`   // signing block at a multiple of 4096
	Late    string `json:"late"`    // name of one more entry behind all others; none
}

type Sig struct {
	A string `json:"a"` // algorithm id declared
	M string `json:"m"` // algorithm really used
	K string `json:"k"` // key really used
	O string `json:"o"` // this | other: data really signed
	F string `json:"f"` // ok short badlen garbage trunc
}

type Dig struct {
	A string `json:"a"`
	D string `json:"d"` // good bad bad2 short empty
	F string `json:"f"` // ok short badlen trunc
}

type Node struct {
	C  string `json:"c"`
	PA string `json:"pa"`
	NA string `json:"na"`
	Fl int    `json:"fl"`
	K  string `json:"k"`
	M  string `json:"m"`
	O  string `json:"o"`
	F  string `json:"f"` // ok trunc
}

type Attr struct {
	T     string `json:"t"` // strip rotmin lin dev unk short trunc | time (stamp)
	V     int    `json:"v"`
	S     bool   `json:"s"` // payload cut short
	Ver   int    `json:"ver"`
	Nodes []Node `json:"nodes"`
}

type Signer struct {
	Fr    string   `json:"fr"`
	Omin  int      `json:"omin"`
	Omax  int      `json:"omax"`
	Smin  int      `json:"smin"`
	Smax  int      `json:"smax"`
	Sigs  []Sig    `json:"sigs"`
	Pub   string   `json:"pub"`
	Certs []string `json:"certs"`
	Digs  []Dig    `json:"digs"`
	Attrs []Attr   `json:"attrs"`
	Trail bool     `json:"trail"`
}

type StampScheme struct {
	ID   int   `json:"id"`
	Sigs []Sig `json:"sigs"`
}

type Stamp struct {
	Fr       string        `json:"fr"` // ok topTrunc certTrunc badcert schemesTrunc attrTrunc asigTrunc
	Cert     string        `json:"cert"`
	Schemes  []StampScheme `json:"schemes"`
	HasAttrs bool          `json:"hasattrs"`
	Asigs    []Sig         `json:"asigs"`
	Attrs    []Attr        `json:"attrs"`
}

type FrostEntry struct {
	Dis  int    `json:"dis"`
	Key  int    `json:"key"`
	Hash string `json:"hash"` // good bad short
	K    string `json:"k"`    // key that signed
	O    string `json:"o"`    // this other
	F    string `json:"f"`    // ok garbage trail missing
}

type Frost struct {
	Fr      string       `json:"fr"` // ok sizebig protobig metabig trunc
	Entries []FrostEntry `json:"entries"`
}

type Pair struct {
	ID      string   `json:"id"` // v2 v3 v31 stamp frost pad unkA unkB meituan depmeta stampv1
	Fr      string   `json:"fr"` // ok listTrunc empty
	Signers []Signer `json:"signers"`
	Stamp   *Stamp   `json:"stamp,omitempty"`
	Frost   *Frost   `json:"frost,omitempty"`
	Data    string   `json:"data,omitempty"`
}

type SB struct {
	St    string `json:"st"`  // none ok rev
	Dmg   string `json:"dmg"` // none magic hdrsize ftrbig ftrsmall pairbig pairneg pairshort tail
	Pairs []Pair `json:"pairs"`
}

type Ds struct {
	A string `json:"a"` // md5 sha sha1 sha-256 sha-384 sha-512
	V string `json:"v"` // good bad b64 empty
}

type Ent struct {
	N  string   `json:"n"`
	Da []string `json:"da"`
	Ds []Ds     `json:"ds"`
}

type Mf struct {
	St   string `json:"st"`  // ok absent
	Bad  string `json:"bad"` // none nul colon name unnamed dupsec
	Ents []Ent  `json:"ents"`
}

type SF struct {
	St     string   `json:"st"`
	Bad    string   `json:"bad"`
	Ver    bool     `json:"ver"`
	Tool   bool     `json:"tool"`
	Hasxa  bool     `json:"hasxa"`
	Xa     []string `json:"xa"`
	Da     []string `json:"da"`
	Mainds []Ds     `json:"mainds"`
	Whole  []Ds     `json:"whole"`
	Ents   []Ent    `json:"ents"`
}

type SA struct {
	St string `json:"st"` // none ok rev
	Ct string `json:"ct"` // data other absent dup two empty type
	Md string `json:"md"` // good bad absent dup two empty type short
}

type Info struct {
	Da   string `json:"da"`
	Dea  string `json:"dea"`
	K    string `json:"k"`
	Cert string `json:"cert"` // whose issuer+serial is referenced
	M    string `json:"m"`    // hash really used
	O    string `json:"o"`
	F    string `json:"f"` // ok garbage
	Sa   SA     `json:"sa"`
}

type PK struct {
	St    string   `json:"st"` // ok garbage empty
	Infos []Info   `json:"infos"`
	Certs []string `json:"certs"`
}

type V1Signer struct {
	Base string `json:"base"`
	Ext  string `json:"ext"`
	Sf   SF     `json:"sf"`
	Pk   PK     `json:"pk"`
}

type Fmt struct {
	Eol  string `json:"eol"`  // crlf lf cr
	Wrap int    `json:"wrap"` // 0: 72-byte lines; n: wrap values after n bytes
	Case string `json:"case"` // canon lower upper
	Rev  bool   `json:"rev"`  // sections reversed
}

type V1 struct {
	St      string     `json:"st"`
	Fmt     Fmt        `json:"fmt"`
	Mf      Mf         `json:"mf"`
	Signers []V1Signer `json:"signers"`
}

type Apk struct {
	Zip   Zip     `json:"zip"`
	Files []FileE `json:"files"`
	Am    AM      `json:"am"`
	Stf   string  `json:"stf"` // stamp-cert-sha256: absent, cert name, junk, big
	Sb    SB      `json:"sb"`
	V1    V1      `json:"v1"`
}

// Observation: projection of what the public API returned.
type ONode struct {
	C  string `json:"c"`
	PA string `json:"pa"`
	NA string `json:"na"`
	Fl int    `json:"fl"`
}

type OLin struct {
	Min   int     `json:"min"` // 0: no lineage
	Nodes []ONode `json:"nodes"`
}

type OStamp struct {
	St   string  `json:"st"` // nil ok warn mismatch err
	Cert string  `json:"cert"`
	Time int     `json:"time"`
	Lin  []ONode `json:"lin"`
}

// O: what one call of the public API returned on one input.
type O struct {
	Call    string     `json:"call"` // verify block extract
	Min     int        `json:"min"`
	Max     int        `json:"max"`
	Res     string     `json:"res"` // acc rej dex notfound panic hang
	Scheme  int        `json:"scheme"`
	Certs   [][]string `json:"certs"`
	Lin     OLin       `json:"lin"`
	Extra   []string   `json:"extra"`
	V3Certs [][]string `json:"v3certs"`
	V3Lin   OLin       `json:"v3lin"`
	Stamp   OStamp     `json:"stamp"`
	Frost   string     `json:"frost"` // nil ok sig digest err
	Msg     string     `json:"msg,omitempty"`
}
