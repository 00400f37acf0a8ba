From cdd894b537c6b08fdec08453ce4ebf9e73b93fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 1/9] fix: report serial list write errors that surface on
 flush

WriteSerialList deferred the flush of its buffered writer and dropped the
error. A failed write of the final buffer went unnoticed, so Commit could
atomically replace a serial file with a truncated one and then remove the
cached entries.
---
 go/storage/certdatabase.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..58b227b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
-- 
2.43.0


From 74c39000dc7fd82065661bb859f665a056698959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 2/9] fix: do not publish an epoch file that failed to flush

---
 go/storage/certdatabase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 58b227b..d84cb1b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -618,7 +618,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From 1216a893e953e3e3962ff40f94ac185494ae7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 3/9] fix: report revoked list write errors that surface on
 flush

---
 go/cmd/aggregate-crls/aggregate-crls.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..23468fa 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -471,7 +471,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -492,7 +491,7 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From f22489c84477323a107f992be739640289de31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 4/9] fix: return the error when writing the enrolled issuers
 fails

---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..2927d0c 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -337,6 +337,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From d46bcfa52f303e089eb40f2f32d63f50f1676d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 5/9] fix: list each serial bin once even if the cache repeats
 a key

Redis may return a key several times during a SCAN. Commit moved each
listed bin concurrently, so a repeated key let two goroutines rewrite the
same serial file and one of them could drop serials the other had already
removed from the cache.
---
 go/storage/certdatabase.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index d84cb1b..e3f13b3 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -116,7 +116,10 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 	// The channel entries are strings of the form "serials::<date>::<issuer id>".
 	// We gather these by issuer to obtain a list of the form
 	//    [(issuer 1, [date 1, date 2, ...]), (issuer 2, [...]), ...].
+	// The cache may list the same key more than once, but each bin must only
+	// be processed once.
 	issuerMap := make(map[string]types.IssuerDate)
+	seen := make(map[string]struct{})
 	for entry := range reader {
 		parts := strings.Split(entry, "::")
 		if len(parts) != 3 {
@@ -130,7 +133,14 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 			continue
 		}
 
-		_, ok := issuerMap[issuer.ID()]
+		bin := expDate.ID() + "::" + issuer.ID()
+		_, ok := seen[bin]
+		if ok {
+			continue
+		}
+		seen[bin] = struct{}{}
+
+		_, ok = issuerMap[issuer.ID()]
 		if !ok {
 			issuerMap[issuer.ID()] = types.IssuerDate{
 				Issuer:   issuer,
-- 
2.43.0


From 710e596068335247e822964c828488087b3a30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 6/9] fix: do not claim coverage of a one-entry log before
 first contact

---
 go/cmd/ct-fetch/rfc6962.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..257b082 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -354,7 +354,10 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		//
+		// If we have never downloaded from this log then MaxEntry is
+		// meaningless.
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From db52ce7b151ca8d85d9c9d63b4c535559c7fc155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 7/9] fix: download entry 0 of a tiled log on first contact

The worker resumed from MaxEntry+1 even when nothing had been downloaded
yet, so entry 0 was skipped although the recorded range started at 0.
---
 go/cmd/ct-fetch/tiled.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..be04350 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -253,6 +253,14 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
 
+	// If we have never downloaded from this log then MaxEntry is meaningless
+	// and we need to start from entry 0.
+	firstContact := lw.LogState.LastUpdateTime.IsZero()
+	nextEntry := maxEntry + 1
+	if firstContact {
+		nextEntry = 0
+	}
+
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
 		return nil
@@ -268,7 +276,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if !firstContact && lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -284,21 +292,22 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, maxEntry, nextEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(nextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			nextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -311,13 +320,16 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		// There is nothing to record if we haven't read any entries.
+		if nextEntry > 0 {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From 68ee9a3de6695a777469c048de4ffbc2f480724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 8/9] fix: wait for cache listings to report errors before
 using them

---
 go/storage/certdatabase.go | 28 +++++++++++++++++++---------
 go/storage/rediscache.go   | 11 +++++++----
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index e3f13b3..34c9f61 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -164,14 +164,21 @@ func (db *CertDatabase) GetIssuerAndDatesFromCache() ([]types.IssuerDate, error)
 	// The cache stores sets of serial numbers in bins that are keyed by strings
 	// of the form "serials::<date>::<issuer id>".
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.KeysToChan("serials::*", allChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list from cache")
-		}
+		errChan <- db.cache.KeysToChan("serials::*", allChan)
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return issuerList, err
+	}
+
+	// A closed channel does not imply that the listing is complete.
+	if err := <-errChan; err != nil {
+		return []types.IssuerDate{}, fmt.Errorf("Couldn't list from cache: %s", err)
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, error) {
@@ -681,16 +688,19 @@ func (db *CertDatabase) List(k *SerialCacheKey) map[string]struct{} {
 	uniqueEntries := make(map[string]struct{})
 
 	strChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.SetToChan(k.ID(), strChan)
-		if err != nil {
-			glog.Fatalf("Error obtaining list of known certificates: %v", err)
-		}
+		errChan <- db.cache.SetToChan(k.ID(), strChan)
 	}()
 
 	for str := range strChan {
 		uniqueEntries[str] = struct{}{}
 	}
 
+	// A closed channel does not imply that the listing is complete.
+	if err := <-errChan; err != nil {
+		glog.Fatalf("Error obtaining list of known certificates: %v", err)
+	}
+
 	return uniqueEntries
 }
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..ad2dab8 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -249,11 +249,9 @@ func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 	ctLogList := make([]types.CTLogState, 0)
 	keyChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := ec.KeysToChan("log::*", keyChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list CT logs from cache: %s", err)
-		}
+		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
 	for entry := range keyChan {
@@ -268,6 +266,11 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		}
 	}
 
+	// A closed channel does not imply that the listing is complete.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list CT logs from cache: %s", err)
+	}
+
 	return ctLogList, nil
 }
 
-- 
2.43.0


From e08422f275617b7a4c4178450e32cd496d357460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 9/9] fix: name expiry bins in UTC

---
 go/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..a314424 100644
--- a/go/types.go
+++ b/go/types.go
@@ -454,7 +454,8 @@ type ExpDate struct {
 }
 
 func NewExpDateFromTime(t time.Time) ExpDate {
-	truncTime := t.Truncate(time.Hour)
+	// Certificates may encode times with a zone offset; bins are named in UTC.
+	truncTime := t.UTC().Truncate(time.Hour)
 	return ExpDate{
 		date:           truncTime,
 		lastGood:       truncTime.Add(-1 * time.Millisecond),
-- 
2.43.0

