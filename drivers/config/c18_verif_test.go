package config

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"gopkg.in/ini.v1"
)

type vSetting struct {
	key, kind string
	get       func(c *CTConfig) string
	def       string
}

func TestVerifC18(t *testing.T) {
	r := vNew(t, "C18", "random combinations of absent, empty, well-formed and malformed values in the environment and in a configuration file for every setting, with and without a file and the batchSize flag; non-trivial: all")
	defer r.done()
	str := func(p func(c *CTConfig) *string) func(*CTConfig) string {
		return func(c *CTConfig) string { return *p(c) }
	}
	all := []vSetting{
		{"batchSize", "u", func(c *CTConfig) string { return fmt.Sprint(*c.BatchSize) }, "4096"},
		{"pollingDelay", "u", func(c *CTConfig) string { return fmt.Sprint(*c.PollingDelay) }, "600"},
		{"remoteSettingsUpdateInterval", "u", func(c *CTConfig) string { return fmt.Sprint(*c.RemoteSettingsUpdateInterval) }, "3600"},
		{"numThreads", "i", func(c *CTConfig) string { return fmt.Sprint(*c.NumThreads) }, "1"},
		{"statsdPort", "i", func(c *CTConfig) string { return fmt.Sprint(*c.StatsDPort) }, "8125"},
		{"logExpiredEntries", "b", func(c *CTConfig) string { return fmt.Sprint(*c.LogExpiredEntries) }, "false"},
		{"runForever", "b", func(c *CTConfig) string { return fmt.Sprint(*c.RunForever) }, "false"},
		{"remoteSettingsURL", "s", str(func(c *CTConfig) *string { return c.RemoteSettingsURL }), ""},
		{"ctLogMetadata", "s", str(func(c *CTConfig) *string { return c.CTLogMetadata }), ""},
		{"savePeriod", "s", str(func(c *CTConfig) *string { return c.SavePeriod }), "15m"},
		{"certPath", "s", str(func(c *CTConfig) *string { return c.CertPath }), ""},
		{"googleProjectId", "s", str(func(c *CTConfig) *string { return c.GoogleProjectId }), ""},
		{"redisHost", "s", str(func(c *CTConfig) *string { return c.RedisHost }), ""},
		{"redisTimeout", "s", str(func(c *CTConfig) *string { return c.RedisTimeout }), "5s"},
		{"statsRefreshPeriod", "s", str(func(c *CTConfig) *string { return c.StatsRefreshPeriod }), "10m"},
		{"statsdHost", "s", str(func(c *CTConfig) *string { return c.StatsDHost }), ""},
		{"healthAddr", "s", str(func(c *CTConfig) *string { return c.HealthAddr }), ":8080"},
	}
	// text -> what the kind makes of it ("!" is malformed), in the environment and in the file
	vals := map[string][][3]string{
		"u": {{"7", "7", "7"}, {"18446744073709551615", "18446744073709551615", "18446744073709551615"}, {"0", "0", "0"}, {"-1", "!", "!"}, {"", "!", "!"}, {"12x", "!", "!"}, {"18446744073709551616", "!", "!"}, {"3.5", "!", "!"}, {" 9", "!", "9"}},
		"i": {{"7", "7", "7"}, {"-7", "-7", "-7"}, {"2147483647", "2147483647", "2147483647"}, {"-2147483648", "-2147483648", "-2147483648"}, {"0", "0", "0"}, {"", "!", "!"}, {"seven", "!", "!"}, {"1e3", "!", "!"}, {"99999999999999999999", "!", "!"}},
		"b": {{"true", "true", "true"}, {"false", "false", "false"}, {"1", "true", "true"}, {"0", "false", "false"}, {"", "!", "!"}, {"maybe", "!", "!"}, {"2", "!", "!"}},
		"s": {{"x y", "x y", "x y"}, {"", "", "!"}, {"true", "true", "true"}, {"a/b:1", "a/b:1", "a/b:1"}},
	}
	oldFlags, oldArgs := flag.CommandLine, os.Args
	defer func() { flag.CommandLine, os.Args = oldFlags, oldArgs }()
	dir := r.dir()
	os.Setenv("HOME", dir)
	// the readers of single settings, with arbitrary defaults
	envOnly := map[string][][2]string{
		"u": {{"010", "10"}, {"0x10", "!"}, {"4294967296", "4294967296"}, {"1_000", "!"}, {"+3", "!"}},
		"i": {{"010", "10"}, {"0x10", "!"}, {"-0", "0"}, {"4294967296", "!"}, {"2147483648", "!"}, {"1_000", "!"}, {"+3", "3"}},
		"b": {{"on", "!"}, {"yes", "!"}, {"T", "true"}, {"f", "false"}, {"TRUE", "true"}},
		"s": {{" x ", " x "}, {"\n", "\n"}},
	}
	for k := 0; k < r.size(300, 6000); k++ {
		kind := []string{"u", "i", "b", "s"}[r.rng.Intn(4)]
		var es [][2]string
		for _, v := range vals[kind] {
			es = append(es, [2]string{v[0], v[1]})
		}
		es = append(es, envOnly[kind]...)
		def := map[string][]string{"u": {"0", "9"}, "i": {"0", "-4", "12"}, "b": {"true", "false"}, "s": {"", "d"}}[kind]
		d := def[r.rng.Intn(len(def))]
		e := es[r.rng.Intn(len(es))]
		f := vals[kind][r.rng.Intn(len(vals[kind]))]
		hasE, hasS, hasF := r.rng.Intn(3) > 0, r.rng.Intn(2) == 0, r.rng.Intn(2) == 0
		want := d
		if hasS && hasF && f[2] != "!" {
			want = f[2]
		}
		if hasE && e[1] != "!" {
			want = e[1]
		}
		r.run(map[string]interface{}{"kind": kind, "default": d, "environment": e[0], "set in environment": hasE, "section": hasS, "file": f[0], "set in file": hasF, "want": want}, func() string {
			const key = "vsetting"
			os.Unsetenv(key)
			if hasE {
				os.Setenv(key, e[0])
				defer os.Unsetenv(key)
			}
			var sec *ini.Section
			if hasS {
				text := ""
				if hasF {
					text = key + " = " + f[0] + "\n"
				}
				cfg, err := ini.Load([]byte(text))
				if err != nil {
					return err.Error()
				}
				sec = cfg.Section("")
			}
			g := ""
			switch kind {
			case "u":
				var p uint64 = 1
				v, _ := strconv.ParseUint(d, 10, 64)
				confUint64(&p, sec, key, v)
				g = fmt.Sprint(p)
			case "i":
				p := 1
				v, _ := strconv.Atoi(d)
				confInt(&p, sec, key, v)
				g = fmt.Sprint(p)
			case "b":
				p := d != "true"
				confBool(&p, sec, key, d == "true")
				g = fmt.Sprint(p)
			case "s":
				p := "old"
				confString(&p, sec, key, d)
				g = p
			}
			if g != want {
				return fmt.Sprintf("the setting is %q, not %q", g, want)
			}
			return ""
		})
	}
	for k := 0; k < r.size(400, 8000); k++ {
		env, file := map[string]string{}, map[string]string{}
		want := map[string]string{}
		useFile := r.rng.Intn(5) > 0
		for _, s := range all {
			want[s.key] = s.def
			e := vals[s.kind][r.rng.Intn(len(vals[s.kind]))]
			f := vals[s.kind][r.rng.Intn(len(vals[s.kind]))]
			hasE, hasF := r.rng.Intn(2) == 0, r.rng.Intn(2) == 0
			if hasF {
				file[s.key] = f[0]
			}
			if useFile && hasF && f[2] != "!" {
				want[s.key] = f[2]
			}
			if hasE {
				env[s.key] = e[0]
				if e[1] != "!" {
					want[s.key] = e[1]
				}
			}
		}
		args := []string{"x"}
		if useFile {
			args = append(args, "-config", filepath.Join(dir, "c.ini"))
		}
		if r.rng.Intn(6) == 0 {
			args = append(args, "-batchSize", "77")
			want["batchSize"] = "77"
		}
		r.run(map[string]interface{}{"environment": env, "file": file, "use file": useFile, "args": args[1:]}, func() string {
			var sb strings.Builder
			for _, s := range all {
				if v, ok := file[s.key]; ok {
					sb.WriteString(s.key + " = " + v + "\n")
				}
				os.Unsetenv(s.key)
				if v, ok := env[s.key]; ok {
					os.Setenv(s.key, v)
				}
			}
			defer func() {
				for _, s := range all {
					os.Unsetenv(s.key)
				}
			}()
			if err := os.WriteFile(filepath.Join(dir, "c.ini"), []byte(sb.String()), 0644); err != nil {
				return err.Error()
			}
			flag.CommandLine = flag.NewFlagSet("x", flag.PanicOnError)
			os.Args = args
			c := NewCTConfig()
			c.Init()
			for _, s := range all {
				if g := s.get(c); g != want[s.key] {
					return fmt.Sprintf("%s is %q, not %q", s.key, g, want[s.key])
				}
			}
			return ""
		})
	}
}
