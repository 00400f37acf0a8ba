seed('c02-underflow','C02','.',[('go/types.go','''	if o.MaxTimestamp < msMMD {
		return 0
	}

	return o.MaxTimestamp - msMMD''','''	cutoff := int64(o.MaxTimestamp) - int64(msMMD)
	return uint64(cutoff)''')],'''
package types

import "testing"

func TestDemo(t *testing.T) {
	o := CTLogState{MMD: 86400, MaxTimestamp: 86399999}
	if c := o.CoverageCutoff(); c != 0 {
		t.Fatalf("a log younger than its merge delay claims coverage up to %d", c)
	}
	o.MaxTimestamp = 86400005
	if c := o.CoverageCutoff(); c != 5 {
		t.Fatalf("cutoff %d", c)
	}
}
''','a log whose newest timestamp is smaller than its maximum merge delay','the cutoff wraps to a huge value, so entries that are not covered are moved to storage')
seed('c03-timestamp-bytes','C03','storage',[('go/storage/types.go','''	binary.LittleEndian.PutUint64(value, aTimestamp)
''','''	// timestamps are in milliseconds; six bytes last for thousands of years
	var ts [8]byte
	binary.LittleEndian.PutUint64(ts[:], aTimestamp)
	copy(value[:6], ts[:])
''')],'''
package storage

import (
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

func TestDemo(t *testing.T) {
	k := NewSerialCacheKey(types.NewExpDateFromTime(time.Now()), types.NewIssuerFromString("i"))
	a := k.NewMember(5, [32]byte{1}, types.NewSerialFromBytes([]byte{1}))
	b := k.NewMember(5|1<<50, [32]byte{1}, types.NewSerialFromBytes([]byte{1}))
	if a.Value == b.Value {
		t.Fatal("two timestamps give the same entry")
	}
}
''','a timestamp above 2^48','timestamps are truncated, so different entries coincide and an entry of the far future counts as covered')
seed('c05-stop-at-odd-name','C05','storage',[('go/storage/certdatabase.go','''			if len(parts) != 3 {
				glog.Warningf("Unexpected serial file name: %s", name)
				continue
			}''','''			if len(parts) != 3 {
				glog.Warningf("Unexpected serial file name: %s", name)
				break
			}''')],'''
package storage

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := filepath.Join(dir, "serials", "issuer::a")
	os.MkdirAll(d, 0755)
	for _, n := range []string{"README", "serials::2020-01-01-05::a"} {
		os.WriteFile(filepath.Join(d, n), []byte("x"), 0644)
	}
	db, err := NewCertDatabase(NewMockRemoteCache(), dir, false)
	if err != nil {
		t.Fatal(err)
	}
	if err := db.removeExpiredSerialsFromStorage(time.Now()); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(d, "README")); err != nil {
		t.Fatal("foreign file deleted")
	}
	if _, err := os.Stat(filepath.Join(d, "serials::2020-01-01-05::a")); err == nil {
		t.Fatal("an expired list is kept")
	}
}
''','a foreign file sorted before an expired list in the directory of an issuer','expired lists are never cleaned up')
seed('c06-dedup-prefix','C06','.',[('go/types.go','''		if bytes.Equal(s[i].serial, s[i-1].serial) {
			continue''','''		// sorted, so a repeated serial directly follows its first copy
		if bytes.HasPrefix(s[i].serial, s[i-1].serial) {
			continue''')],'''
package types

import "testing"

func TestDemo(t *testing.T) {
	l := SerialList{NewSerialFromHex("0102"), NewSerialFromHex("010203"), NewSerialFromHex("0102")}.Dedup()
	if len(l) != 2 || l[0].HexString() != "0102" || l[1].HexString() != "010203" {
		t.Fatal(l)
	}
}
''','a serial that is a proper prefix of another serial in the same bin','a distinct serial is dropped when lists are merged')
seed('c06-skip-blank','C06','storage',[('go/storage/certdatabase.go','''		line := scanner.Text()
		serialList''','''		line := scanner.Text()
		if len(line) == 0 {
			// tolerate a trailing blank line
			continue
		}
		serialList''')],'''
package storage

import (
	"os"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	db, err := NewCertDatabase(NewMockRemoteCache(), dir, false)
	if err != nil {
		t.Fatal(err)
	}
	e := types.NewExpDateFromTime(time.Now())
	i := types.NewIssuerFromString("a")
	os.MkdirAll(db.issuerDir(i), 0755)
	f, err := os.Create(db.serialFile(e, i))
	if err != nil {
		t.Fatal(err)
	}
	in := []types.Serial{types.NewSerialFromBytes([]byte{}), types.NewSerialFromBytes([]byte{1})}
	if err := WriteSerialList(f, e, i, in); err != nil {
		t.Fatal(err)
	}
	f.Close()
	out, err := db.ReadSerialsFromStorage(e, i)
	if err != nil || len(out) != len(in) {
		t.Fatal(out, err)
	}
}
''','an empty serial number in a list','a stored serial is not read back, so a later merge drops it')
