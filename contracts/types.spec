// ---- C02: coverage ----
func (*types.CTLogState).KeyID(o) (id, err)
  prop C02
  nopanic
  requires nonnil: o != nil
  case valid:
    ensures b64ok(base64.StdEncoding, o.LogID) && len(b64dec(base64.StdEncoding, o.LogID)) == 32
    ensures err == nil && id == b64dec(base64.StdEncoding, o.LogID)
  case invalid:
    ensures !(b64ok(base64.StdEncoding, o.LogID) && len(b64dec(base64.StdEncoding, o.LogID)) == 32)
    ensures err != nil

macro cutoff(mx, mmd) = (mx < mmd * 1000 ? 0 : mx - mmd * 1000)
macro idOk(s) = b64ok(base64.StdEncoding, s) && len(b64dec(base64.StdEncoding, s)) == 32
macro idOf(s) = b64dec(base64.StdEncoding, s)

func (*types.CTLogState).CoverageCutoff(o) (r)
  prop C02
  nopanic
  requires nonnil: o != nil
  assume o.MMD <= 18446744073709551
  ensures cutoff: r == cutoff(o.MaxTimestamp, o.MMD)

// the map holds exactly the logs of the list, each with the cutoff of a state given for it
func types.NewCoverageCutoffMap(aLogData) (m)
  prop C02
  nopanic
  assume forall j: int :: 0 <= j < len(aLogData) ==> aLogData[j].MMD <= 18446744073709551
  fresh m
  ensures known: forall k: string {k in m} :: k in m ==> (exists j: int :: 0 <= j < len(aLogData) && idOk(aLogData[j].LogID) && idOf(aLogData[j].LogID) == k && m[k] == cutoff(aLogData[j].MaxTimestamp, aLogData[j].MMD))
  ensures complete: forall j: int :: 0 <= j < len(aLogData) && idOk(aLogData[j].LogID) ==> idOf(aLogData[j].LogID) in m
  inv known: $i: phi int, $m: types.CoverageCutoffMap :: forall k: string {k in $m} :: k in $m ==> (exists j: int :: 0 <= j < $i && idOk(aLogData[j].LogID) && idOf(aLogData[j].LogID) == k && $m[k] == cutoff(aLogData[j].MaxTimestamp, aLogData[j].MMD))
  inv complete: $i: phi int, $m: types.CoverageCutoffMap :: forall j: int :: 0 <= j < $i && idOk(aLogData[j].LogID) ==> idOf(aLogData[j].LogID) in $m

// ---- serials ----
macro ser(s) = bytes(s.serial)
func types.NewSerialFromBytes(b) (s)
  prop C03 C09
  nopanic
  ensures s.serial == b
func types.NewSerialFromBinaryString(b) (s, err)
  prop C02 C03
  nopanic
  ensures ok: err == nil && ser(s) == b && s.serial != nil
func (types.Serial).BinaryString(s) (r)
  prop C03
  nopanic
  ensures r == ser(s)
func (types.Serial).HexString(s) (r)
  prop C06 C20
  nopanic
  ensures r == hex(ser(s))
func types.NewSerialFromHex(s) (r)
  prop C06
  ensures valid: hexok(s) && ser(r) == hexdec(s)
