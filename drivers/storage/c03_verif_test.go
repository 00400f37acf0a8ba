package storage

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

func TestVerifC03(t *testing.T) {
	r := vNew(t, "C03", "parsed certificates with random serials (1 to 20 bytes, also with the top bit set) and expiry times, random timestamps and log ids, one database for all; and entries made directly from arbitrary serial bytes; non-trivial: all")
	defer r.done()
	c := newVCache(1)
	db, err := NewCertDatabase(c, r.dir(), false)
	if err != nil {
		t.Fatal(err)
	}
	type key struct {
		k    *ecdsa.PrivateKey
		cert *types.Certificate
		x    *x509.Certificate
	}
	var issuers []key
	for i := 0; i < 3; i++ {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tm := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprint("ca", i)}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4000000000, 0), IsCA: true, BasicConstraintsValid: true}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
		if err != nil {
			t.Fatal(err)
		}
		cc, _ := types.ParseCertificate(der)
		xx, _ := x509.ParseCertificate(der)
		issuers = append(issuers, key{k, cc, xx})
	}
	check := func(m SetMemberWithExpiry, ts uint64, log [32]byte, serial []byte, na time.Time, issID string) string {
		if m.Value != vEntry(ts, log, serial) {
			return fmt.Sprintf("entry %x, want %x", m.Value, vEntry(ts, log, serial))
		}
		label := na.UTC().Format("2006-01-02-15")
		if m.Key != vSetKey(label, issID) {
			return fmt.Sprintf("key %s, want %s", m.Key, vSetKey(label, issID))
		}
		hour, _ := time.Parse("2006-01-02-15", label)
		if !m.Expiry.Equal(hour) {
			return fmt.Sprintf("expiry %v, want %v", m.Expiry, hour)
		}
		s, err := SerialCacheEntry(m.Value).AsSerial()
		if err != nil {
			return err.Error()
		}
		return vDiff("serial read back", s.HexString(), hex.EncodeToString(serial))
	}
	for k := 0; k < r.size(300, 3000); k++ {
		is := issuers[r.rng.Intn(len(issuers))]
		n := 1 + r.rng.Intn(20)
		sb := make([]byte, n)
		r.rng.Read(sb)
		for sb[0] == 0 {
			sb[0] = byte(r.rng.Intn(256))
		}
		sn := new(big.Int).SetBytes(sb)
		want := sb
		if sb[0] >= 0x80 {
			want = append([]byte{0}, sb...)
		}
		na := time.Unix(1500000000+r.rng.Int63n(2000000000), 0)
		if r.rng.Intn(3) == 0 {
			na = na.Truncate(time.Hour).Add(time.Duration([]int{0, 1, 3599}[r.rng.Intn(3)]) * time.Second)
		}
		ts := r.rng.Uint64()
		var log [32]byte
		r.rng.Read(log[:])
		r.run(map[string]interface{}{"serial": hex.EncodeToString(sb), "notAfter": na.Unix(), "ts": ts, "log": hex.EncodeToString(log[:]), "issuer": is.x.Subject.CommonName}, func() string {
			tm := &x509.Certificate{SerialNumber: sn, Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Unix(0, 0), NotAfter: na}
			der, err := x509.CreateCertificate(rand.Reader, tm, is.x, &is.k.PublicKey, is.k)
			if err != nil {
				return ""
			}
			cc, err := types.ParseCertificate(der)
			if err != nil {
				return err.Error()
			}
			d := sha256.Sum256(is.x.RawSubjectPublicKeyInfo)
			m := db.PrepareSetMember(cc, is.cert, ts, log)
			return check(m, ts, log, want, na, base64.URLEncoding.EncodeToString(d[:]))
		})
		raw := make([]byte, r.rng.Intn(60))
		r.rng.Read(raw)
		off := time.FixedZone("z", (r.rng.Intn(24)-12)*1800)
		na2 := na.In(off)
		iss := []string{"iss", "iss2", "is", "", "a-b"}[r.rng.Intn(5)]
		r.run(map[string]interface{}{"rawSerial": hex.EncodeToString(raw), "notAfter": na2.String(), "ts": ts, "issuer": iss}, func() string {
			m := db.GetSerialCacheKey(types.NewExpDateFromTime(na2), types.NewIssuerFromString(iss)).NewMember(ts, log, types.NewSerialFromBytes(raw))
			return check(m, ts, log, raw, na2, iss)
		})
	}
}
