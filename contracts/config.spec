// ---- C18: settings ----
// the environment and the configuration file, as they are while the configuration is read
fn envSet(string) bool
fn envText(string) string
extern os.LookupEnv(key) (val, ok)
  pure
  ensures ok == envSet(key)
  ensures ok ==> val == envText(key)
fn numOk(string, int, int) bool
fn num(string, int, int) int
axiom num-range32: forall s: string, b: int {num(s, b, 32)} :: -2147483648 <= num(s, b, 32) && num(s, b, 32) <= 2147483647
extern strconv.ParseInt(s, base, bitSize) (i, err)
  pure
  ensures (err == nil) == numOk(s, base, bitSize)
  ensures err == nil ==> i == num(s, base, bitSize)
fn unumOk(string, int, int) bool
fn unum(string, int, int) int
extern strconv.ParseUint(s, base, bitSize) (i, err)
  pure
  ensures (err == nil) == unumOk(s, base, bitSize)
  ensures err == nil ==> i == unum(s, base, bitSize)
fn boolOk(string) bool
fn boolVal(string) bool
extern strconv.ParseBool(s) (b, err)
  pure
  ensures (err == nil) == boolOk(s)
  ensures err == nil ==> b == boolVal(s)
// gopkg.in/ini.v1: a key has a text (empty when it is not in the file) and is parsed by the library's own rules
fn iniKey(ref, string) ref
fn keyText(ref) string
fn keyIntOk(ref) bool
fn keyInt(ref) int
fn keyUintOk(ref) bool
fn keyUint(ref) int
fn keyBoolOk(ref) bool
fn keyBool(ref) bool
extern (*gopkg.in/ini.v1.Section).Key(s, name) (k)
  requires s != nil
  pure
  ensures ref(k) == iniKey(ref(s), name)
extern (*gopkg.in/ini.v1.Key).String(k) (s)
  requires k != nil
  pure
  ensures s == keyText(ref(k))
extern (*gopkg.in/ini.v1.Key).Int(k) (v, err)
  requires k != nil
  pure
  ensures (err == nil) == keyIntOk(ref(k))
  ensures err == nil ==> v == keyInt(ref(k))
extern (*gopkg.in/ini.v1.Key).Uint64(k) (v, err)
  requires k != nil
  pure
  ensures (err == nil) == keyUintOk(ref(k))
  ensures err == nil ==> v == keyUint(ref(k))
extern (*gopkg.in/ini.v1.Key).Bool(k) (v, err)
  requires k != nil
  pure
  ensures (err == nil) == keyBoolOk(ref(k))
  ensures err == nil ==> v == keyBool(ref(k))

// the value of a setting: environment, then file, then default
macro envInt(key) = envSet(key) && numOk(envText(key), 10, 32)
macro fileInt(sec, key) = sec != 0 && iniKey(sec, key) != 0 && keyIntOk(iniKey(sec, key))
macro isInt(v, sec, key, def) = (envInt(key) ==> v == num(envText(key), 10, 32)) && (!envInt(key) && fileInt(sec, key) ==> v == keyInt(iniKey(sec, key))) && (!envInt(key) && !fileInt(sec, key) ==> v == def)
macro envUint(key) = envSet(key) && unumOk(envText(key), 10, 64)
macro fileUint(sec, key) = sec != 0 && iniKey(sec, key) != 0 && keyUintOk(iniKey(sec, key))
macro isUint(v, sec, key, def) = (envUint(key) ==> v == unum(envText(key), 10, 64)) && (!envUint(key) && fileUint(sec, key) ==> v == keyUint(iniKey(sec, key))) && (!envUint(key) && !fileUint(sec, key) ==> v == def)
macro envBool(key) = envSet(key) && boolOk(envText(key))
macro fileBool(sec, key) = sec != 0 && iniKey(sec, key) != 0 && keyBoolOk(iniKey(sec, key))
macro isBool(v, sec, key, def) = (envBool(key) ==> v == boolVal(envText(key))) && (!envBool(key) && fileBool(sec, key) ==> v == keyBool(iniKey(sec, key))) && (!envBool(key) && !fileBool(sec, key) ==> v == def)
macro fileStr(sec, key) = sec != 0 && iniKey(sec, key) != 0 && len(keyText(iniKey(sec, key))) > 0
macro isStr(v, sec, key, def) = (envSet(key) ==> v == envText(key)) && (!envSet(key) && fileStr(sec, key) ==> v == keyText(iniKey(sec, key))) && (!envSet(key) && !fileStr(sec, key) ==> v == def)

func config.confInt(p, section, key, def)
  prop C18
  nopanic
  requires nonnil: p != nil
  modifies *p
  ensures isInt(*p, ref(section), key, def)
func config.confUint64(p, section, key, def)
  prop C18
  nopanic
  requires nonnil: p != nil
  modifies *p
  ensures isUint(*p, ref(section), key, def)
func config.confBool(p, section, key, def)
  prop C18
  nopanic
  requires nonnil: p != nil
  modifies *p
  ensures isBool(*p, ref(section), key, def)
func config.confString(p, section, key, def)
  prop C18
  nopanic
  requires nonnil: p != nil
  modifies *p
  ensures isStr(*p, ref(section), key, def)

// the section that is read (nil when there is no file), and the command line
ghost iniSection: ref
const cmdBatch: int
extern (*gopkg.in/ini.v1.File).Section(f, name) (s)
  ensures ref(s) == iniSection && s != nil && name == ""
  havoc iniSection
extern flag.Uint64Var(p, name, value, usage)
  requires p != nil
  modifies *p
  ensures *p == cmdBatch
extern flag.StringVar(p, name, value, usage)
  requires p != nil
  modifies *p
extern flag.Parse()
  pure
func config.NewCTConfig() (c)
  prop C18
  nopanic
  fresh c
  ensures c != nil && settings(c)
macro settings(c) = c.BatchSize != nil && c.PollingDelay != nil && c.RemoteSettingsUpdateInterval != nil && c.NumThreads != nil && c.StatsDPort != nil && c.LogExpiredEntries != nil && c.RunForever != nil && strings(c) && distinct(c.BatchSize, c.PollingDelay, c.RemoteSettingsUpdateInterval) && c.NumThreads != c.StatsDPort && c.LogExpiredEntries != c.RunForever
macro strings(c) = distinct(nil, c.RemoteSettingsURL, c.CTLogMetadata, c.SavePeriod, c.CertPath, c.GoogleProjectId, c.RedisHost, c.RedisTimeout, c.StatsRefreshPeriod, c.StatsDHost, c.HealthAddr)
func (*config.CTConfig).Init(c)
  prop C18
  noframe
  requires c != nil && settings(c)
  requires iniSection == 0
  havoc iniSection
  ensures batchSize: cmdBatch == 0 ==> isUint(*c.BatchSize, iniSection, "batchSize", 4096)
  ensures batchSizeFlag: cmdBatch > 0 ==> *c.BatchSize == cmdBatch
  ensures remoteSettingsURL: isStr(*c.RemoteSettingsURL, iniSection, "remoteSettingsURL", "")
  ensures ctLogMetadata: isStr(*c.CTLogMetadata, iniSection, "ctLogMetadata", "")
  ensures numThreads: isInt(*c.NumThreads, iniSection, "numThreads", 1)
  ensures logExpiredEntries: isBool(*c.LogExpiredEntries, iniSection, "logExpiredEntries", false)
  ensures runForever: isBool(*c.RunForever, iniSection, "runForever", false)
  ensures pollingDelay: isUint(*c.PollingDelay, iniSection, "pollingDelay", 600)
  ensures remoteSettingsUpdateInterval: isUint(*c.RemoteSettingsUpdateInterval, iniSection, "remoteSettingsUpdateInterval", 3600)
  ensures savePeriod: isStr(*c.SavePeriod, iniSection, "savePeriod", "15m")
  ensures certPath: isStr(*c.CertPath, iniSection, "certPath", "")
  ensures googleProjectId: isStr(*c.GoogleProjectId, iniSection, "googleProjectId", "")
  ensures redisHost: isStr(*c.RedisHost, iniSection, "redisHost", "")
  ensures redisTimeout: isStr(*c.RedisTimeout, iniSection, "redisTimeout", "5s")
  ensures statsRefreshPeriod: isStr(*c.StatsRefreshPeriod, iniSection, "statsRefreshPeriod", "10m")
  ensures statsdHost: isStr(*c.StatsDHost, iniSection, "statsdHost", "")
  ensures statsdPort: isInt(*c.StatsDPort, iniSection, "statsdPort", 8125)
  ensures healthAddr: isStr(*c.HealthAddr, iniSection, "healthAddr", ":8080")
