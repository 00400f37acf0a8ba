seed('c18-env-fallthrough','C18','config',[('go/config/config.go','''	val, ok := os.LookupEnv(key)
	if ok {
		b, err := strconv.ParseBool(val)
		if err == nil {
			*p = b
			return
		}
	}

	*p = def
''','''	// the environment wins; a value that is not understood counts as unset
	*p = def
	if val, ok := os.LookupEnv(key); ok {
		b, err := strconv.ParseBool(val)
		*p = b
		if err == nil {
			return
		}
	}

''')],'''
package config

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	os.Setenv("demoflag", "on")
	defer os.Unsetenv("demoflag")
	var b bool
	confBool(&b, nil, "demoflag", true)
	if !b {
		t.Fatal("a malformed environment value replaces the default")
	}
}
''','a boolean setting whose default is true with a malformed environment value and no value in the file','a malformed value takes effect as false instead of the next source')
seed('c18-int-width','C18','config',[('go/config/config.go','''i, err := strconv.ParseInt(val, 10, 32)''','''i, err := strconv.ParseInt(val, 0, 32)''')],'''
package config

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	os.Setenv("demoint", "010")
	defer os.Unsetenv("demoint")
	var i int
	confInt(&i, nil, "demoint", 3)
	if i != 10 {
		t.Fatal(i)
	}
}
''','an integer in the environment with a leading zero','the value is read as octal')
