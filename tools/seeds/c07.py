seed('c07-storage-break','C07','storage',[('go/storage/certdatabase.go','''			if !(issuerDir.IsDir() && strings.HasPrefix(issuerName, "issuer::")) {
				continue
			}
			serialFiles, err := os.ReadDir(issuerDirFull)
			if err != nil {
				glog.Fatal(err)
			}
			for _, file := range serialFiles {
				name := file.Name()
				if strings.HasPrefix(name, "serials::") {
					allChan <- name
				}
			}''','''			if !(issuerDir.IsDir() && strings.HasPrefix(issuerName, "issuer::")) {
				continue
			}
			serialFiles, err := os.ReadDir(issuerDirFull)
			if err != nil {
				glog.Fatal(err)
			}
			for _, file := range serialFiles {
				name := file.Name()
				if name > "serials::~" {
					// sorted: nothing of interest follows
					return
				}
				if strings.HasPrefix(name, "serials::") {
					allChan <- name
				}
			}''')],'''
package storage

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	db, err := NewCertDatabase(NewMockRemoteCache(), dir, false)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"issuer::a/serials::2031-01-01-05::a", "issuer::a/tmp", "issuer::b/serials::2031-01-01-05::b"} {
		p := filepath.Join(dir, "serials", n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte("x"), 0644)
	}
	l, err := db.GetIssuerAndDatesFromStorage()
	if err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}
''','a foreign file sorted after the lists of an issuer','the issuers after it are not listed')
