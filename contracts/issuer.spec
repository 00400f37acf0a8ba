// ---- issuers: the id is given, or the URL-safe base64 of the SHA-256 of the key ----
macro spkiId(b) = b64enc(base64.URLEncoding, sha256(b))
macro issuerId(i) = (i.id == nil ? spkiId(bytes(i.spki.spki)) : *i.id)
func (types.SPKI).Sha256DigestURLEncodedBase64(o) (r)
  prop C03
  nopanic
  ensures r == spkiId(bytes(o.spki))
func (*types.Issuer).ID(o) (r)
  prop C03 C07
  nopanic
  requires nonnil: o != nil
  modifies o.id
  ensures r == old(issuerId(*o))
  ensures same: issuerId(*o) == old(issuerId(*o))
func types.NewIssuerFromString(s) (i)
  prop C07
  nopanic
  ensures issuerId(i) == s
func types.NewIssuerFromSPKI(b) (i)
  prop C03
  nopanic
  ensures issuerId(i) == spkiId(bytes(b))
func types.NewIssuer(c) (i)
  prop C03 C15
  nopanic
  requires nonnil: c != nil
  ensures issuerId(i) == spkiId(bytes(c.RawSubjectPublicKeyInfo))

// ---- certificates ----
// crypto/x509 parses both fields from the same bytes; what the parsers do is trusted
fn tbsSerial(string) string
fn tbsOk(string) bool
extern encoding/asn1.Unmarshal[*types.tbsCertWithRawSerial](b, v) (rest, err)
  modifies *v
  fresh rest
  case ok:
    ensures tbsOk(bytes(b)) && err == nil && bytes(v.SerialNumber.Bytes) == tbsSerial(bytes(b))
  case bad:
    ensures !tbsOk(bytes(b)) && err != nil
macro wfCert(c) = (c != nil && (c.ctCert != nil || c.zcCert != nil))
macro certSpki(c) = (c.ctCert != nil ? bytes(c.ctCert.RawSubjectPublicKeyInfo) : bytes(c.zcCert.RawSubjectPublicKeyInfo))
macro certTBS(c) = (c.ctCert != nil ? bytes(c.ctCert.RawTBSCertificate) : bytes(c.zcCert.RawTBSCertificate))
macro certNotAfter(c) = (c.ctCert != nil ? ns(c.ctCert.NotAfter) : ns(c.zcCert.NotAfter))
func (*types.Certificate).NotAfter(c) (r)
  prop C03 C15
  nopanic
  requires wf: wfCert(c)
  ensures ns(r) == certNotAfter(c)
func (*types.Certificate).RawTBSCertificate(c) (r)
  prop C03
  nopanic
  requires wf: wfCert(c)
  ensures bytes(r) == certTBS(c)
func (*types.Certificate).RawSubjectPublicKeyInfo(c) (r)
  prop C03 C15
  nopanic
  requires wf: wfCert(c)
  ensures bytes(r) == certSpki(c)
func types.NewSerialFromTBS(b) (s)
  prop C03
  ensures parsed: tbsOk(bytes(b)) && ser(s) == tbsSerial(bytes(b))
func types.NewSerialFromCertificate(c) (s)
  prop C03
  requires wf: wfCert(c)
  ensures tbsOk(certTBS(c)) && ser(s) == tbsSerial(certTBS(c))
func types.NewIssuerFromCertificate(c) (i)
  prop C03
  requires wf: wfCert(c)
  ensures issuerId(i) == spkiId(certSpki(c))
