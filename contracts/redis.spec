// ---- redis (server and client library trusted): string values, sets, and what each command answers ----
// rdHas holds the keys with string values and rdStr the values; a command that fails may or may not have been carried out
ghost rdHas: set[string]
ghost rdStr: map[string]string
ghost cmdErr: map[ref]iface
ghost cmdVal: map[ref]string
ghost cmdBool: map[ref]bool
fn trimRight(string, string) string
extern strings.TrimRight(s, c) (r)
  pure
  ensures r == trimRight(s, c)
macro logKey(u) = ("log::" ++ trimRight(u, "/"))
lemma log-apart: forall u: string {"log::" ++ trimRight(u, "/")} :: prefixof("log::", "log::" ++ trimRight(u, "/")) && "log::" ++ trimRight(u, "/") != "epoch" && "log::" ++ trimRight(u, "/") != "lock::commit"
lemma glob-log-apart: forall s: string {globMatch("log::*", s)} :: globMatch("log::*", s) ==> prefixof("log::", s) && s != "epoch" && s != "lock::commit"
// the text a value is sent as
macro textOf(v) = (istype(v, uint64) ? itoa(as(v, uint64)) : (istype(v, string) ? as(v, string) : bytes(as(v, []byte))))
macro nilReply() = box("redis: nil", proto.RedisError)
const ioFailure: iface
axiom ioFailure: ioFailure != nil && ioFailure != nilReply()
extern (*github.com/go-redis/redis.cmdable).Get(c, key) (r)
  pure
  fresh r
  ensures r != nil
  case found:
    ensures key in rdHas
    set cmdErr := cmdErr[ref(r) := nil]
    set cmdVal := cmdVal[ref(r) := rdStr[key]]
  case missing:
    ensures !(key in rdHas)
    set cmdErr := cmdErr[ref(r) := nilReply()]
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
extern (*github.com/go-redis/redis.StringCmd).Result(r) (s, err)
  pure
  ensures err == cmdErr[ref(r)]
  ensures err == nil ==> s == cmdVal[ref(r)]
extern (*github.com/go-redis/redis.StringCmd).Bytes(r) (b, err)
  pure
  fresh b
  ensures err == cmdErr[ref(r)]
  ensures err == nil ==> bytes(b) == cmdVal[ref(r)]
extern (*github.com/go-redis/redis.cmdable).Set(c, key, value, expiration) (r)
  fresh r
  ensures r != nil
  case ok:
    set rdHas := rdHas[key := true]
    set rdStr := rdStr[key := textOf(value)]
    set cmdErr := cmdErr[ref(r) := nil]
  case lost:
    set rdHas := rdHas[key := true]
    set rdStr := rdStr[key := textOf(value)]
    set cmdErr := cmdErr[ref(r) := ioFailure]
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
extern (*github.com/go-redis/redis.cmdable).SetNX(c, key, value, expiration) (r)
  fresh r
  ensures r != nil
  case done:
    ensures !(key in old(rdHas))
    set rdHas := rdHas[key := true]
    set rdStr := rdStr[key := textOf(value)]
    set cmdErr := cmdErr[ref(r) := nil]
    set cmdBool := cmdBool[ref(r) := true]
  case there:
    ensures key in rdHas
    set cmdErr := cmdErr[ref(r) := nil]
    set cmdBool := cmdBool[ref(r) := false]
  case lost:
    ensures !(key in old(rdHas))
    set rdHas := rdHas[key := true]
    set rdStr := rdStr[key := textOf(value)]
    set cmdErr := cmdErr[ref(r) := ioFailure]
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
extern (*github.com/go-redis/redis.BoolCmd).Result(r) (v, err)
  pure
  ensures err == cmdErr[ref(r)]
  ensures err == nil ==> v == cmdBool[ref(r)]
extern (*github.com/go-redis/redis.cmdable).Incr(c, key) (r)
  fresh r
  ensures r != nil
  case ok:
    ensures !(key in old(rdHas)) || unumOk(old(rdStr[key]), 10, 64)
    set rdStr := rdStr[key := itoa((key in rdHas ? unum(rdStr[key], 10, 64) : 0) + 1)]
    set rdHas := rdHas[key := true]
    set cmdErr := cmdErr[ref(r) := nil]
    ensures (key in old(rdHas) ? unum(old(rdStr[key]), 10, 64) : 0) < 9223372036854775807
  case lost:
    ensures !(key in old(rdHas)) || unumOk(old(rdStr[key]), 10, 64)
    set rdStr := rdStr[key := itoa((key in rdHas ? unum(rdStr[key], 10, 64) : 0) + 1)]
    set rdHas := rdHas[key := true]
    set cmdErr := cmdErr[ref(r) := ioFailure]
    ensures (key in old(rdHas) ? unum(old(rdStr[key]), 10, 64) : 0) < 9223372036854775807
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
extern (*github.com/go-redis/redis.cmdable).Del(c, keys) (r)
  fresh r
  ensures r != nil
  havoc rdHas
  ensures forall k: string {k in rdHas} :: k in rdHas ==> k in old(rdHas)
  ensures forall k: string {k in rdHas} {k in old(rdHas)} :: k in old(rdHas) && !(k in rdHas) ==> (exists i: int {keys[i]} :: 0 <= i < len(keys) && keys[i] == k)
  case ok:
    set cmdErr := cmdErr[ref(r) := nil]
    ensures forall i: int {keys[i]} :: 0 <= i < len(keys) ==> !(keys[i] in rdHas)
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
// replies to KEYS: the keys with string values that match
extern (*github.com/go-redis/redis.cmdable).Keys(c, pattern) (r)
  pure
  fresh r
  ensures r != nil
  set keysPat := keysPat[ref(r) := pattern]
  case ok:
    set cmdErr := cmdErr[ref(r) := nil]
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
ghost keysPat: map[ref]string
extern (*github.com/go-redis/redis.StringSliceCmd).Result(r) (l, err)
  pure
  fresh l
  ensures err == cmdErr[ref(r)]
  ensures err == nil ==> (forall i: int {l[i]} :: 0 <= i < len(l) ==> globMatch(keysPat[ref(r)], l[i]))
  ensures err == nil ==> (forall k: string {k in rdHas} :: k in rdHas && globMatch(keysPat[ref(r)], k) ==> (exists i: int {l[i]} :: 0 <= i < len(l) && l[i] == k))
// ---- C04, C16: epoch and lock ----
macro lockKey() = "lock::commit"
func (*storage.RedisCache).GetEpoch(ec) (r, err)
  prop C04
  requires nonnil: ec != nil && ec.client != nil
  ensures epoch: err == nil ==> r == ("epoch" in rdHas ? unum(rdStr["epoch"], 10, 64) : 0)
func (*storage.RedisCache).NextEpoch(ec) (err)
  prop C04
  requires nonnil: ec != nil && ec.client != nil
  havoc rdHas["epoch"]
  havoc rdStr["epoch"]
  ensures next: err == nil ==> "epoch" in rdHas && unum(rdStr["epoch"], 10, 64) == old("epoch" in rdHas ? unum(rdStr["epoch"], 10, 64) : 0) + 1
  ensures failed: err != nil ==> ("epoch" in rdHas) == old("epoch" in rdHas) && rdStr["epoch"] == old(rdStr["epoch"]) || "epoch" in rdHas && unum(rdStr["epoch"], 10, 64) == old("epoch" in rdHas ? unum(rdStr["epoch"], 10, 64) : 0) + 1
func (*storage.RedisCache).HasCommitLock(ec, aToken) (r, err)
  prop C04 C16
  requires nonnil: ec != nil && ec.client != nil
  ensures owner: err == nil ==> r == (lockKey() in rdHas && rdStr[lockKey()] == aToken)
extern crypto/rand.Read(b) (n, err)
  modifies bytes(b)
  ensures len(bytes(b)) == len(old(bytes(b)))
func (*storage.RedisCache).AcquireCommitLock(ec) (tok, err)
  prop C04 C16
  requires nonnil: ec != nil && ec.client != nil
  fresh tok
  havoc rdHas[lockKey()]
  havoc rdStr[lockKey()]
  ensures granted: err == nil && tok != nil ==> !(lockKey() in old(rdHas)) && lockKey() in rdHas && rdStr[lockKey()] == *tok
  ensures refused: lockKey() in old(rdHas) ==> lockKey() in rdHas && rdStr[lockKey()] == old(rdStr[lockKey()]) && (tok == nil || err != nil)
func (*storage.RedisCache).ReleaseCommitLock(ec, aToken)
  prop C04 C16
  requires nonnil: ec != nil && ec.client != nil
  havoc rdHas[lockKey()]
  ensures others: lockKey() in old(rdHas) && rdStr[lockKey()] != aToken ==> lockKey() in rdHas
  ensures none: !(lockKey() in old(rdHas)) ==> !(lockKey() in rdHas)
// ---- C04: log states and their restoration ----
fn jsonLog(string, int, string, int, int, int, int, int) string
macro logText(l) = jsonLog(l.LogID, l.MMD, l.ShortURL, l.MinEntry, l.MaxEntry, l.MinTimestamp, l.MaxTimestamp, ns(l.LastUpdateTime))
// encoding/json: the text of a log state is determined by its fields
extern encoding/json.Marshal(v) (b, err)
  pure
  fresh b
  ensures err == nil && istype(v, *types.CTLogState) ==> bytes(b) == logText(*as(v, *types.CTLogState))
func storage.shortUrlToLogKey(u) (r)
  prop C04
  ensures r == logKey(u)
func (*storage.RedisCache).StoreLogState(ec, log) (err)
  prop C04
  requires nonnil: ec != nil && ec.client != nil && log != nil
  havoc rdHas[logKey(log.ShortURL)]
  havoc rdStr[logKey(log.ShortURL)]
  ensures stored: err == nil ==> logKey(log.ShortURL) in rdHas && rdStr[logKey(log.ShortURL)] == logText(*log)
  ensures kept: logKey(log.ShortURL) in old(rdHas) ==> logKey(log.ShortURL) in rdHas
// the arbitrary name as the key of a log: it holds the state of one of the given logs, or is gone
macro restored(L) = (prefixof("log::", anyName) ==> ((anyName in rdHas ==> (exists j: int {L[j]} :: 0 <= j < len(L) && anyName == logKey(L[j].ShortURL) && rdStr[anyName] == logText(L[j]))) && (forall j: int {L[j]} :: 0 <= j < len(L) && anyName == logKey(L[j].ShortURL) ==> anyName in rdHas)))
func (*storage.RedisCache).Restore(ec, aEpoch, aLogStates) (err)
  prop C04
  requires nonnil: ec != nil && ec.client != nil
  havoc rdHas
  havoc rdStr
  always last: rdStr["epoch"] != old(rdStr["epoch"]) || ("epoch" in rdHas) != old("epoch" in rdHas) ==> restored(aLogStates) && "epoch" in rdHas && rdStr["epoch"] == itoa(aEpoch)
  ensures restored: err == nil ==> restored(aLogStates)
  ensures epoch: err == nil ==> "epoch" in rdHas && rdStr["epoch"] == itoa(aEpoch)
  ensures locked: lockKey() in old(rdHas) ==> err != nil && (anyName in rdHas) == old(anyName in rdHas) && rdStr[anyName] == old(rdStr[anyName])
  inv epoch: rdStr["epoch"] == old(rdStr["epoch"]) && ("epoch" in rdHas) == old("epoch" in rdHas)
  inv free: !(lockKey() in old(rdHas))
  inv gone: $i: phi int indexing []string, $k: []string :: forall j: int {$k[j]} :: 0 <= j < $i && $k[j] == anyName ==> !(anyName in rdHas)
  inv fewer: $i: phi int indexing []string :: anyName in rdHas && anyName != lockKey() ==> anyName in old(rdHas)
  inv put: $i: phi int indexing []types.CTLogState :: (forall j: int {aLogStates[j]} :: 0 <= j < $i && anyName == logKey(aLogStates[j].ShortURL) ==> anyName in rdHas)
  inv known: $i: phi int indexing []types.CTLogState :: prefixof("log::", anyName) && anyName in rdHas ==> (exists j: int {aLogStates[j]} :: 0 <= j < $i && anyName == logKey(aLogStates[j].ShortURL) && rdStr[anyName] == logText(aLogStates[j]))
// ---- C16: bulk operations on sets ----
// commands queued in a pipeline, per key; they are carried out when the pipeline is executed, and a failure may leave any part of them done
ghost queued: map[string]set[string]
ghost queuedExp: map[string]int
ghost rdExp: map[string]int
const nothingQueued: map[string]set[string]
const noExpiry: map[string]int
axiom nothingQueued: forall k: string, v: string {v in nothingQueued[k]} :: !(v in nothingQueued[k])
axiom noExpiry: forall k: string {noExpiry[k]} :: noExpiry[k] == -1
extern (github.com/go-redis/redis.Pipeliner).SAdd(p, key, members) (r)
  fresh r
  ensures r != nil
  havoc queued[key]
  ensures forall v: string {v in old(queued[key])} {v in queued[key]} :: v in old(queued[key]) ==> v in queued[key]
  ensures forall i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) ==> as(members[i], string) in queued[key]
  ensures forall v: string {v in queued[key]} :: v in queued[key] && !(v in old(queued[key])) ==> (exists i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) && as(members[i], string) == v)
extern (github.com/go-redis/redis.Pipeliner).ExpireAt(p, key, tm) (r)
  fresh r
  ensures r != nil
  set queuedExp := queuedExp[key := ns(tm)]
extern (*github.com/go-redis/redis.Client).Pipelined(c, fn) (cmds, err)
  callback fn
  start queued := nothingQueued
  start queuedExp := noExpiry
  case refused:
    ensures cb != nil && err == cb
  case ok:
    ensures cb == nil && err == nil
    havoc rdSet
    havoc rdExp
    ensures forall k: string, v: string {v in rdSet[k]} :: (v in rdSet[k]) == (v in old(rdSet[k]) || v in queued[k])
    ensures forall k: string {rdExp[k]} :: rdExp[k] == (queuedExp[k] == -1 ? old(rdExp[k]) : queuedExp[k])
  case fail:
    ensures cb == nil && err != nil
    havoc rdSet
    havoc rdExp
    ensures forall k: string, v: string {v in rdSet[k]} :: v in rdSet[k] ==> v in old(rdSet[k]) || v in queued[k]
    ensures forall k: string, v: string {v in rdSet[k]} :: v in old(rdSet[k]) ==> v in rdSet[k]
    ensures forall k: string {rdExp[k]} :: rdExp[k] == old(rdExp[k]) || rdExp[k] == queuedExp[k]
func (*storage.RedisCache).SetInsertMany(rc, items) (err)
  prop C16
  requires nonnil: rc != nil && rc.client != nil
  requires times: forall i: int {items[i]} :: 0 <= i < len(items) ==> ns(items[i].Expiry) != -1
  havoc rdSet
  havoc rdExp
  havoc queued
  havoc queuedExp
  ensures every: err == nil ==> (forall i: int {items[i]} :: 0 <= i < len(items) ==> items[i].Value in rdSet[items[i].Key])
  ensures only: forall k: string, v: string {v in rdSet[k]} :: v in rdSet[k] && !(v in old(rdSet[k])) ==> (exists i: int {items[i]} :: 0 <= i < len(items) && items[i].Key == k && items[i].Value == v)
  ensures kept: forall k: string, v: string {v in rdSet[k]} :: v in old(rdSet[k]) ==> v in rdSet[k]
  ensures expiry: err == nil ==> (forall i: int {items[i]} :: 0 <= i < len(items) ==> (exists j: int {items[j]} :: 0 <= j < len(items) && items[j].Key == items[i].Key && rdExp[items[i].Key] == ns(items[j].Expiry)))
  inv all: $i: phi int indexing []storage.SetMemberWithExpiry :: forall j: int {items[j]} :: 0 <= j < $i ==> items[j].Value in queued[items[j].Key] && queuedExp[items[j].Key] != -1
  inv only: $i: phi int indexing []storage.SetMemberWithExpiry :: forall k: string, v: string {v in queued[k]} :: v in queued[k] ==> (exists j: int {items[j]} :: 0 <= j < $i && items[j].Key == k && items[j].Value == v)
  inv expiry: $i: phi int indexing []storage.SetMemberWithExpiry :: forall k: string {queuedExp[k]} :: queuedExp[k] != -1 ==> (exists j: int {items[j]} :: 0 <= j < $i && items[j].Key == k && queuedExp[k] == ns(items[j].Expiry))
extern (*github.com/go-redis/redis.cmdable).SRem(c, key, members) (r)
  fresh r
  ensures r != nil
  havoc rdSet[key]
  ensures forall v: string {v in rdSet[key]} :: v in rdSet[key] ==> v in old(rdSet[key])
  ensures forall v: string {v in rdSet[key]} :: v in old(rdSet[key]) && !(v in rdSet[key]) ==> (exists i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) && as(members[i], string) == v) || (len(members) == 1 && istype(members[0], []string) && (exists j: int {as(members[0], []string)[j]} :: 0 <= j < len(as(members[0], []string)) && as(members[0], []string)[j] == v))
  case ok:
    set cmdErr := cmdErr[ref(r) := nil]
    ensures len(members) == 1 && istype(members[0], []string) ==> (forall j: int {as(members[0], []string)[j]} :: 0 <= j < len(as(members[0], []string)) ==> !(as(members[0], []string)[j] in rdSet[key]))
    ensures forall i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) ==> !(as(members[i], string) in rdSet[key])
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
func (*storage.RedisCache).SetRemove(rc, key, entries) (err)
  prop C16
  requires nonnil: rc != nil && rc.client != nil
  havoc rdSet[key]
  ensures every: err == nil ==> (forall i: int {entries[i]} :: 0 <= i < len(entries) ==> !(entries[i] in rdSet[key]))
  ensures only: anyName in old(rdSet[key]) && !(anyName in rdSet[key]) ==> (exists i: int {entries[i]} :: 0 <= i < len(entries) && entries[i] == anyName)
  ensures nothing-new: forall v: string {v in rdSet[key]} :: v in rdSet[key] ==> v in old(rdSet[key])
  inv all: $i: phi int :: forall j: int {entries[j]} :: 0 <= j < $i && j < len(entries) ==> !(entries[j] in rdSet[key])
  inv pos: $i: phi int :: $i >= 0
  inv only: anyName in old(rdSet[key]) && !(anyName in rdSet[key]) ==> (exists i: int {entries[i]} :: 0 <= i < len(entries) && entries[i] == anyName)
  inv nothing-new: forall v: string {v in rdSet[key]} :: v in rdSet[key] ==> v in old(rdSet[key])
extern (*github.com/go-redis/redis.cmdable).SScan(c, key, cursor, match, count) (r)
  pure
  fresh r
  ensures r != nil
  set scanFrom := scanFrom[ref(r) := rdSet[key]]
func (*storage.RedisCache).SetToChan(rc, key, c) (err)
  prop C16 C01
  requires nonnil: rc != nil && rc.client != nil
  requires open: !closed(c)
  modifies sent(c), closed(c)
  havoc itSeen
  havoc itBad
  havoc itCur
  havoc itFrom
  havoc scanFrom
  ensures end: closed(c)
  ensures only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdSet[key]
  ensures every: err == nil ==> (forall n: string {n in rdSet[key]} {n in sent(c)} :: n in rdSet[key] ==> n in sent(c))
  inv from: $it: *redis.ScanIterator :: itFrom[ref($it)] == rdSet[key] && !(ref($it) in itBad)
  inv only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdSet[key]
  inv seen: $it: *redis.ScanIterator :: forall n: string {n in itSeen[ref($it)]} :: n in itSeen[ref($it)] ==> n in sent(c)
extern (*github.com/go-redis/redis.cmdable).SAdd(c, key, members) (r)
  fresh r
  ensures r != nil
  havoc rdSet[key]
  ensures forall v: string {v in rdSet[key]} :: v in old(rdSet[key]) ==> v in rdSet[key]
  ensures forall v: string {v in rdSet[key]} :: v in rdSet[key] && !(v in old(rdSet[key])) ==> (exists i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) && as(members[i], string) == v)
  case ok:
    set cmdErr := cmdErr[ref(r) := nil]
    ensures forall i: int {members[i]} :: 0 <= i < len(members) && istype(members[i], string) ==> as(members[i], string) in rdSet[key]
  case fail:
    set cmdErr := cmdErr[ref(r) := ioFailure]
func (*storage.RedisCache).SetInsert(rc, key, entry) (r, err)
  prop C16
  requires nonnil: rc != nil && rc.client != nil
  havoc rdSet[key]
  ensures there: err == nil ==> entry in rdSet[key]
  ensures kept: forall v: string {v in rdSet[key]} :: v in old(rdSet[key]) ==> v in rdSet[key]
  ensures only: forall v: string {v in rdSet[key]} :: v in rdSet[key] && !(v in old(rdSet[key])) ==> v == entry
extern (*github.com/go-redis/redis.IntCmd).Result(r) (v, err)
  pure
  ensures err == cmdErr[ref(r)]
