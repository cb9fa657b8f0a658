From e622906d05bcad850798a394ae5a0ec603aacf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:01 +0000
Subject: [PATCH 01/30] fix: load the profile of every validated vault, not
 only of the first one

LoadProfile kept the profile of the first vault it had read, so that a second
vault validated with the same repository was checked against the salt and the
keys of the first one: its own password was refused.
---
 1pass-parse/repo/file/profilerepo.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..2d51053 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,15 +38,17 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
+
+	var profileJson map[string]interface{}
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
+		log.Fatalln(err)
 	}
+
+	repo.profileJson = profileJson
 }
-- 
2.43.0


From 814850210d5f10954eda35d52ccc003c1ca6e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:01 +0000
Subject: [PATCH 02/30] fix: store the items of the vault that was just
 unlocked

StoreItems kept the items that were already in memory, so unlocking again (the
same vault after it had changed, or another vault) kept showing the old items.
---
 1pass-parse/repo/file/itemrepo.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..b2229e2 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -138,7 +138,5 @@ func (repo *fileItemRepo) RemoveItems() {
 }
 
 func (repo *fileItemRepo) StoreItems(items []*domain.Item) {
-	if repo.items == nil {
-		repo.items = items
-	}
+	repo.items = items
 }
-- 
2.43.0


From 3b65b5b918b26771250547db58cf3acb09d523ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 03/30] fix: read vaults that have an empty band file

The contents of the band files were joined with commas, so a band without items
(ld({});) left a stray comma and the whole vault was refused as invalid JSON.
---
 1pass-parse/repo/file/itemrepo.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index b2229e2..aecb826 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -94,8 +94,6 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	}
 
 	if len(bandFiles) != 0 {
-		itemsFile := "{"
-
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
 
@@ -103,13 +101,9 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
-		}
-
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
-
-		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
-			log.Fatalln(err)
+			if err := json.Unmarshal(file[3:len(file)-2], &itemsJson); err != nil {
+				log.Fatalln(err)
+			}
 		}
 
 		for uid, value := range itemsJson {
-- 
2.43.0


From 4e836ea6e4baf6e8b70d2d7e1a011a59fba3a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 04/30] fix: find the band files of vaults whose path has glob
 characters

The path of the vault was part of a glob pattern: a vault in a directory such
as 'backup [2021]' was shown without any items.
---
 1pass-parse/repo/file/itemrepo.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index aecb826..0fc1265 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -87,12 +87,20 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandFiles := make([]string, 0)
+	profileDir := filepath.Join(vault.Path, domain.ProfileDir)
+	files, err := ioutil.ReadDir(profileDir)
 
 	if err != nil {
 		log.Fatalln(err)
 	}
 
+	for _, file := range files {
+		if matched, _ := filepath.Match(domain.BandFilePattern, file.Name()); matched {
+			bandFiles = append(bandFiles, filepath.Join(profileDir, file.Name()))
+		}
+	}
+
 	if len(bandFiles) != 0 {
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
-- 
2.43.0


From 400c2f0fc244b85fd602055706c3f642dc0b75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 05/30] fix: show the real date of date fields

The timestamp is decoded from JSON as float64 and was printed in scientific
notation (1.6e+09), which does not parse: every date was shown as 1970-01-01.
---
 1pass-core/core/service/itemservice.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..de1b8d6 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -170,6 +170,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+				} else if number, ok := data["v"].(float64); ok {
+					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(int64(number)), nil)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
-- 
2.43.0


From 81b8b1836185517488ad391255b0e25187cebe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 06/30] fix: show the form fields of items that also have
 sections

Logins with both form fields (username, password) and sections only showed the
sections: their username and password could not be seen at all.
---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index de1b8d6..fc87c4d 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -57,25 +57,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From c17143f6047a7455e518232728274818638db9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 07/30] fix: check the item keys before they are used

The MAC of the encrypted item keys was never checked, and keys, overviews or
details that had been cut short (or were not base64) crashed the application
with a slice out of range, which made the whole vault unreadable.
---
 1pass-core/core/service/itemservice.go |  5 +++++
 1pass-core/core/service/keyservice.go  | 22 ++++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index fc87c4d..60a7c27 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -39,6 +39,11 @@ func (s *dfltItemService) DecodeDetails(encoded *domain.RawItem, keys *domain.Ke
 	var detailsJson map[string]interface{}
 	detailsData, _ := base64.StdEncoding.DecodeString(encoded.Details)
 	itemKey, itemMac := s.keyService.ItemKeys(encoded, keys)
+
+	if itemKey == nil {
+		return nil
+	}
+
 	details, _ := s.keyService.DecodeOpdata(detailsData, itemKey, itemMac)
 	json.Unmarshal(details, &detailsJson)
 
diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..6ef2eda 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -84,6 +84,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidHmac
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -121,8 +125,22 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
 	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
-	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if len(itemKeys) < 112 {
+		return nil, nil
+	}
+
+	data, mac := itemKeys[:len(itemKeys)-32], itemKeys[len(itemKeys)-32:]
+
+	if err := s.CheckHmac(data, keys.MasterMac, mac); err != nil {
+		return nil, nil
+	}
+
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From eff9300fc7732692af354fa1a89bec8f83f97818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 08/30] fix: compare versions number by number

The versions were compared after dropping their dots, so 1.2.10 counted as newer
than 1.3.1 and 2.0 as older.
---
 1pass-up/component/github/updater.go | 39 +++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..a5a7726 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,37 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func isNewer(current, remote string) bool {
+	currParts := strings.Split(current, ".")
+	remoteParts := strings.Split(remote, ".")
+	newer := false
+	decided := false
+
+	for i := 0; i < len(currParts) || i < len(remoteParts); i++ {
+		var currPart, remotePart uint64
+		var err error
+
+		if i < len(currParts) {
+			currPart, _ = strconv.ParseUint(currParts[i], 10, 64)
+		}
+
+		if i < len(remoteParts) {
+			remotePart, err = strconv.ParseUint(remoteParts[i], 10, 64)
+
+			if err != nil {
+				return false
+			}
+		}
+
+		if !decided && remotePart != currPart {
+			newer = remotePart > currPart
+			decided = true
+		}
+	}
+
+	return newer
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -75,7 +106,6 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 	latestJson := bodyJson[0].(map[string]interface{})
 	changelog := latestJson["body"].(string)
 	version := latestJson["tag_name"].(string)
-	newer := false
 	var archiveUrl string
 	var checksumUrl string
 	assets := latestJson["assets"].([]interface{})
@@ -94,12 +124,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
-		newer = true
-	}
+	newer := isNewer(domain.Version, version)
 
 	return domain.NewUpdateInfo(archiveUrl, checksumUrl, changelog, version, newer), nil
 }
-- 
2.43.0


From 649f9ea68f327338e5478029ffbebbd0cb2cf1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 09/30] fix: survive unexpected answers of the update server

An empty list of releases, or a release without a description or assets (GitHub
sends null), crashed every command with a panic.
---
 1pass-up/component/github/updater.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index a5a7726..1c4b346 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -99,28 +99,30 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latestJson, _ := bodyJson[0].(map[string]interface{})
+	changelog, _ := latestJson["body"].(string)
+	version, _ := latestJson["tag_name"].(string)
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	assets, _ := latestJson["assets"].([]interface{})
 
 	if assets == nil {
 		return nil, nil
 	}
 
 	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
-
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+		asset, _ := assetJson.(map[string]interface{})
+		name, _ := asset["name"].(string)
+		url, _ := asset["browser_download_url"].(string)
+
+		if strings.Contains(name, ".tar.gz") {
+			archiveUrl = url
+		} else if strings.Contains(name, ".md5") {
+			checksumUrl = url
 		}
 	}
 
-- 
2.43.0


From 810f911478e70f27e07af6a8e14e7eecf6e693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 10/30] fix: refuse an empty checksum file instead of crashing

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 1c4b346..06073ff 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -282,7 +282,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From e8c990c7be14a2cf6ff7624b54269904b906b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 11/30] fix: never extract archive entries outside of the
 update cache

An entry such as ../../etc/cron.d/x was written wherever it pointed to, before
the checksum was checked, usually with root permissions.
---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 06073ff..7d84617 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -198,6 +198,10 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		target := filepath.Join(dst, header.Name)
 
 		if header.Typeflag == tar.TypeReg {
+			if !strings.HasPrefix(target, filepath.Clean(dst)+string(filepath.Separator)) {
+				return fmt.Errorf("invalid path in archive (%v)", header.Name)
+			}
+
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 1205e3912d30b7698aae62087e88fc5ba5f308b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 12/30] fix: keep the application executable after an update

The extracted binary has the permissions of a new file (0644), and it replaced
the running binary as it was: 1pass could not be started after an update.
---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 7d84617..4d603f0 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -224,6 +224,10 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	if err := os.Chmod(src, 0755); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From b503435eccf184d1a2b2dcbc6f0a0d28cbd4a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 13/30] fix: keep the archive of an update from replacing its
 checksum file

The archive was extracted next to the downloaded checksums, so an archive with
an entry named checksum.md5 supplied the checksum it was compared with.
---
 1pass-core/core/service/updateservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..079821f 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -72,6 +72,12 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 			return err
 		}
 
+		extracted := filepath.Join(domain.CacheDir, "extracted")
+
+		if err := os.Mkdir(extracted, 0700); err != nil {
+			return err
+		}
+
 		archive := filepath.Join(domain.CacheDir, domain.Archive)
 		checksum := filepath.Join(domain.CacheDir, domain.Checksum)
 		stage(2)
@@ -88,11 +94,11 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		if err := s.updater.ExtractArchive(archive, extracted); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(extracted, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 3ea9565d860b53e270c9f89e5688855f808ea7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:06 +0000
Subject: [PATCH 14/30] fix: save the configuration over an empty configuration
 file

An empty file is loaded as a nil map, and configuring 1pass crashed on it.
---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..6e49356 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		return make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From a9958cc4dbfd8ca0dd9894135418cc155e947408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:06 +0000
Subject: [PATCH 15/30] fix: never leave a half-written configuration file

The configuration was written over the old file: when the write failed or the
application was stopped in between, the settings were lost or could not be
parsed, and no command could be run any more.
---
 1pass-parse/repo/file/configrepo.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 6e49356..6459630 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -53,6 +53,26 @@ func loadConfigFile(configDir string) map[string]interface{} {
 	return config
 }
 
+func replaceConfigFile(configFile string, content []byte) error {
+	mode := os.FileMode(0644)
+
+	if target, err := filepath.EvalSymlinks(configFile); err == nil {
+		configFile = target
+	}
+
+	if info, err := os.Stat(configFile); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmpFile := configFile + ".tmp"
+
+	if err := ioutil.WriteFile(tmpFile, content, mode); err != nil {
+		return err
+	}
+
+	return os.Rename(tmpFile, configFile)
+}
+
 func (repo *fileConfigRepo) IsAvailable() bool {
 	return len(repo.config) > 0
 }
@@ -113,7 +133,7 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		os.MkdirAll(repo.configDir, 0700)
 	}
 
-	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
+	if err := replaceConfigFile(configFile, file); err != nil {
 		log.Fatalln(err)
 	}
 
-- 
2.43.0


From a44fbccff02102b564ae87aeafdb27bc1092e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 16/30] fix: read the answers of the user line by line

An answer with a space (the path of a vault, usually) was cut at the space and
its rest was taken as the answer to the next question.
---
 1pass-term/control/cobra/clicontrol.go | 43 ++++++++++++++++++--------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..e877b23 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,29 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+func readAnswer() string {
+	answer := make([]byte, 0)
+	char := make([]byte, 1)
+
+	for {
+		size, err := os.Stdin.Read(char)
+
+		if size == 1 {
+			if char[0] == '\n' {
+				break
+			}
+
+			answer = append(answer, char[0])
+		}
+
+		if err != nil {
+			break
+		}
+	}
+
+	return strings.TrimSpace(string(answer))
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -50,29 +73,24 @@ func (ctrl *cobraCliControl) CheckForUpdate() {
 
 func (ctrl *cobraCliControl) Configure() {
 	ctrl.CheckForUpdate()
-	var vaultVal string
-	var notifyVal string
-	var timeoutVal string
-	var periodVal string
-	var confirmVal string
 	config := ctrl.configFacade.GetConfig()
 
 	fmt.Println("Detailed configuration manual can be found online: https://github.com/mashmb/1pass#configuration")
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal := readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
-		config.Vault = strings.TrimSpace(vaultVal)
+		vaultVal := readAnswer()
+		config.Vault = vaultVal
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal := readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +98,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal := readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +106,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal := readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -358,9 +376,8 @@ func (ctrl *cobraCliControl) Update() {
 
 	msg := fmt.Sprintf("New version of 1pass is available (%v).\n\n%v\n", info.Version, info.Changelog)
 	fmt.Println(msg)
-	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal := readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From 750659065a3c87988664bb15dee88651313c7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 17/30] fix: open the last category of vaults without trashed
 items

The last row of the main window was always taken for the trash: in a vault
without trashed items the last category looked empty, and TAB crashed there.
---
 1pass-app/gui/1passwidget.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..59a6379 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -178,21 +178,8 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 			return err
 		}
 
-		var items []*domain.SimpleItem
-
-		if len(ow.categories) == 1 {
-			items = ow.guiControl.GetItems(nil, true)
-		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
-				items = ow.guiControl.GetItems(nil, false)
-			} else {
-				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
-			}
-		}
-
-		ow.itemsWidget.items = items
+		trashed := ow.currIdx == len(ow.categories)-1 && ow.guiControl.CountItems(nil, true) != 0
+		ow.itemsWidget.items = ow.guiControl.GetItems(ow.categories[ow.currIdx], trashed)
 
 		if err := ow.itemsWidget.update(ui); err != nil {
 			return err
-- 
2.43.0


From 680ec0415b77a3a41facb5b00ebee7b8e2ed6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 18/30] fix: highlight the selected category after locking a
 scrolled window

The origin of the view was never reset: after lock and unlock of a window that
had been scrolled, the highlighted row was not the row that ENTER opened.
---
 1pass-app/gui/1passwidget.go | 12 +++++++-----
 1pass-app/gui/itemswidget.go | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 59a6379..2dcce60 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -132,13 +132,15 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
+		}
+
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
 		}
 	}
 
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..1dbd1cc 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -126,13 +126,15 @@ func (iw *itemsWidget) lock(ui *gocui.Gui, view *gocui.View) error {
 
 func (iw *itemsWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
+		}
+
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From ac02761af9b267576c955ae82b376d51ebdf80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 19/30] fix: show the next item from its start after scrolling
 in both directions

Resetting the vertical scroll put the horizontal one back, so the beginning of
every line of the next item was cut off.
---
 1pass-app/gui/detailswidget.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From cc52ae0bc1e71e84eff3ade0419e1dbd1ab78f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 20/30] fix: unlock with the password exactly as it was entered

Spaces around the password were dropped, and a password that was pasted together
with ENTER was read from the screen before it had been drawn there.
---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 2dcce60..1f736d0 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -149,7 +149,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From 02d81a1fe2a25857e0c5cdd52be24fb28b02a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 21/30] fix: draw the result of the update check in the main
 loop

The view was written by another goroutine while it was being drawn, and the
result was not drawn until the next key was pressed.
---
 1pass-app/gui/versionwidget.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e75ea4a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,27 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
-	if err != nil {
-		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+	ui.Update(func(ui *gocui.Gui) error {
+		view, viewErr := ui.View(vw.name)
+
+		if viewErr != nil {
+			return viewErr
+		}
+
+		if err != nil {
+			if err == domain.ErrNoUpdate {
+				fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			} else {
+				fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			}
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 		}
-	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
-	}
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From 7813edc43703a50c6a5145d9f509af60962b4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:51 +0000
Subject: [PATCH 22/30] fix: show values and notes with carriage returns in the
 terminal interface

---
 1pass-app/gui/detailswidget.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b927a7c..a402f10 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/jroimartin/gocui"
@@ -18,6 +19,9 @@ Scroll left/right: h/l
 Cover item: TAB`
 )
 
+// gocui views drop the text of a line before a carriage return
+var lineEnds = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+
 type detailsWidget struct {
 	name        string
 	title       string
@@ -185,7 +189,7 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, field.Value))
+							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, lineEnds.Replace(field.Value)))
 						}
 					}
 				}
@@ -200,7 +204,7 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 
 				fmt.Fprint(view, "Notes\n")
 				fmt.Fprint(view, "------------------------------\n")
-				fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Notes))
+				fmt.Fprint(view, fmt.Sprintf("%v\n", lineEnds.Replace(dw.item.Notes)))
 			}
 		}
 	}
-- 
2.43.0


From d341c0e48662ca121a38171e5ae3b73e80d9085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 23/30] fix: saves of the settings at the same time do not
 damage each other

---
 1pass-parse/repo/file/configrepo.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 6459630..e1c8583 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -64,13 +64,31 @@ func replaceConfigFile(configFile string, content []byte) error {
 		mode = info.Mode().Perm()
 	}
 
-	tmpFile := configFile + ".tmp"
+	tmpFile, err := ioutil.TempFile(filepath.Dir(configFile), domain.ConfigFile+".")
 
-	if err := ioutil.WriteFile(tmpFile, content, mode); err != nil {
+	if err != nil {
 		return err
 	}
 
-	return os.Rename(tmpFile, configFile)
+	_, err = tmpFile.Write(content)
+
+	if err == nil {
+		err = tmpFile.Chmod(mode)
+	}
+
+	if closeErr := tmpFile.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmpFile.Name(), configFile)
+	}
+
+	if err != nil {
+		os.Remove(tmpFile.Name())
+	}
+
+	return err
 }
 
 func (repo *fileConfigRepo) IsAvailable() bool {
-- 
2.43.0


From cda515b66ea575892fe967ff9abf3733cbe6ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 24/30] fix: updates at the same time do not install each
 other's unverified files

---
 1pass-core/core/service/updateservice.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index 079821f..a73b93c 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -5,6 +5,7 @@
 package service
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 
@@ -72,14 +73,20 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 			return err
 		}
 
-		extracted := filepath.Join(domain.CacheDir, "extracted")
+		workDir, err := ioutil.TempDir(domain.CacheDir, "")
+
+		if err != nil {
+			return err
+		}
+
+		extracted := filepath.Join(workDir, "extracted")
 
 		if err := os.Mkdir(extracted, 0700); err != nil {
 			return err
 		}
 
-		archive := filepath.Join(domain.CacheDir, domain.Archive)
-		checksum := filepath.Join(domain.CacheDir, domain.Checksum)
+		archive := filepath.Join(workDir, domain.Archive)
+		checksum := filepath.Join(workDir, domain.Checksum)
 		stage(2)
 
 		if err := s.updater.DownloadFile(archive, info.ArchiveUrl, int64(timeout)); err != nil {
-- 
2.43.0


From 422ad0f15bb850937a33bc18466b2f9ce6a2a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:07 +0000
Subject: [PATCH 25/30] fix: a silent update server does not hold up the
 application for longer than the timeout

---
 1pass-up/component/github/updater.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 4d603f0..62447f4 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -31,12 +31,30 @@ func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
 
+type timeoutConn struct {
+	net.Conn
+	timeout time.Duration
+}
+
+func (conn *timeoutConn) Read(buff []byte) (int, error) {
+	if err := conn.SetReadDeadline(time.Now().Add(conn.timeout)); err != nil {
+		return 0, err
+	}
+
+	return conn.Conn.Read(buff)
+}
+
 func httpClient(timeout int64) http.Client {
 	httpTransport := http.Transport{
 		Dial: func(network, address string) (net.Conn, error) {
 			tout := time.Duration(timeout) * time.Second
+			conn, err := net.DialTimeout(network, address, tout)
+
+			if err != nil || tout <= 0 {
+				return conn, err
+			}
 
-			return net.DialTimeout(network, address, tout)
+			return &timeoutConn{Conn: conn, timeout: tout}, nil
 		},
 	}
 
-- 
2.43.0


From f449caf88231700a5a5cdc4ca33c612a00164369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 26/30] fix: passwords wider than the prompt of the terminal
 interface open the vault

---
 1pass-app/gui/passprompt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..47d02a7 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -22,6 +22,16 @@ func newPasswordPrompt(handler func(ui *gocui.Gui, view *gocui.View) error) *pas
 	}
 }
 
+func (pp *passwordPrompt) edit(view *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	gocui.DefaultEditor.Edit(view, key, ch, mod)
+	maxX, _ := view.Size()
+
+	// gocui puts the cursor one cell too far when the text is wider than the view
+	if cx, cy := view.Cursor(); cx >= maxX {
+		view.SetCursor(maxX-1, cy)
+	}
+}
+
 func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 	if err := ui.SetKeybinding(pp.name, gocui.KeyEnter, gocui.ModNone, pp.handler); err != nil {
 		return err
@@ -42,6 +52,7 @@ func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 
 		view.Title = pp.title
 		view.Editable = true
+		view.Editor = gocui.EditorFunc(pp.edit)
 		view.Mask = '*'
 
 		if _, err := ui.SetCurrentView(pp.name); err != nil {
-- 
2.43.0


From 45fa636e8d20a6efdfffc4d40392a93c5b6dc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 27/30] fix: give the terminal back when an error ends the
 terminal interface

---
 1pass-app/gui/gocui.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index ddaefd2..f282067 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -18,6 +18,16 @@ type GocuiGui struct {
 	guiControl in.GuiControl
 }
 
+type fatalLog struct {
+	ui *gocui.Gui
+}
+
+func (out *fatalLog) Write(msg []byte) (int, error) {
+	out.ui.Close()
+
+	return os.Stderr.Write(msg)
+}
+
 func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	return &GocuiGui{
 		version:    version,
@@ -44,6 +54,7 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}
 
 	defer ui.Close()
+	log.SetOutput(&fatalLog{ui: ui})
 	version := newVerWidget(gui.version, gui.guiControl)
 	help := newHelpWidget()
 	onepass := newOnepassWidget(help, vault, gui.guiControl)
-- 
2.43.0


From 8b113dc4d4a4094d96ad3441004b2fc6638a91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:49 +0000
Subject: [PATCH 28/30] fix: give the terminal back when the password prompt is
 interrupted

---
 1pass-term/control/cobra/clicontrol.go | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index e877b23..e563efc 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -7,6 +7,7 @@ package cobra
 import (
 	"fmt"
 	"os"
+	"os/signal"
 	"sort"
 	"strconv"
 	"strings"
@@ -57,6 +58,31 @@ func readAnswer() string {
 	return strings.TrimSpace(string(answer))
 }
 
+func readPassword() ([]byte, error) {
+	stdin := int(syscall.Stdin)
+	state, err := term.GetState(stdin)
+
+	if err != nil {
+		return nil, err
+	}
+
+	interrupt := make(chan os.Signal, 1)
+	signal.Notify(interrupt, os.Interrupt)
+
+	go func() {
+		if _, ok := <-interrupt; ok {
+			term.Restore(stdin, state)
+			fmt.Println()
+			os.Exit(130)
+		}
+	}()
+
+	defer close(interrupt)
+	defer signal.Stop(interrupt)
+
+	return term.ReadPassword(stdin)
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -164,7 +190,7 @@ func (ctrl *cobraCliControl) GetItemDetails(vaultPath, uid string, trashed bool)
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -245,7 +271,7 @@ func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -325,7 +351,7 @@ func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
-- 
2.43.0


From 46f148b94a066d2b6674eda89c0b2c32275a91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 29/30] fix: refuse vault files that are damaged instead of
 crashing

A profile or band file that is cut off to a few bytes, or whose entries are missing
or have another type, crashed the application, and a band holding null made the items
of the bands before it disappear.
---
 1pass-parse/repo/file/itemrepo.go    | 64 +++++++++++++++++++++++-----
 1pass-parse/repo/file/profilerepo.go | 18 +++++++-
 2 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 0fc1265..ed80b83 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -22,6 +22,41 @@ func NewFileItemRepo() *fileItemRepo {
 	return &fileItemRepo{}
 }
 
+func parseItem(uid string, value interface{}) *domain.RawItem {
+	v, valid := value.(map[string]interface{})
+
+	text := func(key string) string {
+		txt, ok := v[key].(string)
+		valid = valid && ok
+
+		return txt
+	}
+
+	number := func(key string) int64 {
+		num, ok := v[key].(float64)
+		valid = valid && ok
+
+		return int64(num)
+	}
+
+	trashed := false
+
+	if v["trashed"] != nil {
+		flag, ok := v["trashed"].(bool)
+		valid = valid && ok
+		trashed = flag
+	}
+
+	item := domain.NewRawItem(text("category"), text("d"), text("hmac"), text("k"), text("o"), uid,
+		number("created"), number("updated"), trashed)
+
+	if !valid {
+		return nil
+	}
+
+	return item
+}
+
 func (repo *fileItemRepo) CountByCategoryAndTrashed(category *domain.ItemCategory, trashed bool) int {
 	count := 0
 
@@ -86,7 +121,7 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
-	var itemsJson map[string]interface{}
+	itemsJson := make(map[string]interface{})
 	bandFiles := make([]string, 0)
 	profileDir := filepath.Join(vault.Path, domain.ProfileDir)
 	files, err := ioutil.ReadDir(profileDir)
@@ -109,23 +144,32 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			if err := json.Unmarshal(file[3:len(file)-2], &itemsJson); err != nil {
+			if len(file) < 5 {
+				log.Fatalln(bandFile + " is damaged")
+			}
+
+			var bandJson map[string]interface{}
+
+			if err := json.Unmarshal(file[3:len(file)-2], &bandJson); err != nil {
 				log.Fatalln(err)
 			}
+
+			if bandJson == nil {
+				log.Fatalln(bandFile + " is damaged")
+			}
+
+			for uid, value := range bandJson {
+				itemsJson[uid] = value
+			}
 		}
 
 		for uid, value := range itemsJson {
-			v := value.(map[string]interface{})
-			created := int64(v["created"].(float64))
-			updated := int64(v["updated"].(float64))
-			trashed := false
+			item := parseItem(uid, value)
 
-			if v["trashed"] != nil {
-				trashed = v["trashed"].(bool)
+			if item == nil {
+				log.Fatalln("item " + uid + " is damaged")
 			}
 
-			item := domain.NewRawItem(v["category"].(string), v["d"].(string), v["hmac"].(string), v["k"].(string),
-				v["o"].(string), uid, created, updated, trashed)
 			items = append(items, item)
 		}
 	}
diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index 2d51053..edd36fc 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,17 +38,33 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	path := filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile)
+	file, err := ioutil.ReadFile(path)
 
 	if err != nil {
 		log.Fatalln(err)
 	}
 
+	if len(file) < 13 {
+		log.Fatalln(path + " is damaged")
+	}
+
 	var profileJson map[string]interface{}
 
 	if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
 		log.Fatalln(err)
 	}
 
+	_, valid := profileJson["iterations"].(float64)
+
+	for _, key := range []string{"masterKey", "overviewKey", "salt"} {
+		_, ok := profileJson[key].(string)
+		valid = valid && ok
+	}
+
+	if !valid {
+		log.Fatalln(path + " is damaged")
+	}
+
 	repo.profileJson = profileJson
 }
-- 
2.43.0


From f65ee521a0c29d490c6ca80a25dec336a953b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 30/30] fix: show items with unusual contents instead of
 crashing

Item contents with values missing, null or of another type than expected
crashed the application, so that the whole vault could not be opened.
---
 1pass-core/core/domain/datatype.go     |  7 +++-
 1pass-core/core/service/itemservice.go | 51 +++++++++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/1pass-core/core/domain/datatype.go b/1pass-core/core/domain/datatype.go
index 41d1602..1f86250 100644
--- a/1pass-core/core/domain/datatype.go
+++ b/1pass-core/core/domain/datatype.go
@@ -83,7 +83,12 @@ func (r *dataTypeRegistry) parseAddress(jsonValue map[string]interface{}) string
 	sort.Strings(keys)
 
 	for _, key := range keys {
-		val := jsonValue[key].(string)
+		val, ok := jsonValue[key].(string)
+
+		if !ok && jsonValue[key] != nil {
+			val = fmt.Sprint(jsonValue[key])
+		}
+
 		val = strings.TrimSpace(val)
 		val = strings.ReplaceAll(val, "\n", " ")
 		formatted := fmt.Sprintf("\n  %v: %v", key, val)
diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 60a7c27..a0aad45 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -27,6 +27,16 @@ func NewDfltItemService(keyService KeyService, itemRepo out.ItemRepo) *dfltItemS
 	}
 }
 
+func jsonText(value interface{}) string {
+	if text, ok := value.(string); ok || value == nil {
+		return text
+	}
+
+	text, _ := json.Marshal(value)
+
+	return string(text)
+}
+
 func (s *dfltItemService) ClearMemory() {
 	s.itemRepo.RemoveItems()
 }
@@ -63,11 +73,12 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			sections := make([]*domain.ItemSection, 0)
 
 			if detailsJson["fields"] != nil {
-				fieldsJson := detailsJson["fields"].([]interface{})
+				fieldsJson, _ := detailsJson["fields"].([]interface{})
 				fields := make([]*domain.ItemField, 0)
 
 				for _, fieldJson := range fieldsJson {
-					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+					fieldData, _ := fieldJson.(map[string]interface{})
+					field := s.ParseItemField(false, fieldData)
 
 					if field != nil {
 						fields = append(fields, field)
@@ -81,10 +92,11 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			}
 
 			if detailsJson["sections"] != nil {
-				sectionsJson := detailsJson["sections"].([]interface{})
+				sectionsJson, _ := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-					section := s.ParseItemSection(sectionJson.(map[string]interface{}))
+					sectionData, _ := sectionJson.(map[string]interface{})
+					section := s.ParseItemSection(sectionData)
 
 					if section != nil {
 						sections = append(sections, section)
@@ -97,15 +109,15 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			var notes string
 
 			if overviewJson["title"] != nil {
-				title = overviewJson["title"].(string)
+				title = jsonText(overviewJson["title"])
 			}
 
 			if overviewJson["url"] != nil {
-				url = overviewJson["url"].(string)
+				url = jsonText(overviewJson["url"])
 			}
 
 			if detailsJson["notesPlain"] != nil {
-				notes = detailsJson["notesPlain"].(string)
+				notes = jsonText(detailsJson["notesPlain"])
 			}
 
 			if len(sections) == 0 {
@@ -159,8 +171,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 
 	if !fromSection {
 		if data["value"] != nil && data["name"] != nil {
-			value = data["value"].(string)
-			name := data["name"].(string)
+			value = jsonText(data["value"])
+			name := jsonText(data["name"])
 
 			if value != "" && name != "" {
 				field = domain.NewItemField(strings.Title(name), value)
@@ -168,13 +180,17 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 		}
 	} else {
 		if data["v"] != nil {
-			dataType, err := domain.DataTypeEnum.FromName(data["k"].(string))
+			dataType, err := domain.DataTypeEnum.FromName(jsonText(data["k"]))
 
 			if err != nil {
-				value = data["v"].(string)
+				value = jsonText(data["v"])
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
-					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+					if address, ok := data["v"].(map[string]interface{}); ok {
+						value = domain.DataTypeEnum.ParseValue(dataType, "", address)
+					} else {
+						value = jsonText(data["v"])
+					}
 				} else if number, ok := data["v"].(float64); ok {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(int64(number)), nil)
 				} else {
@@ -182,7 +198,7 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 				}
 			}
 
-			field = domain.NewItemField(strings.Title(data["t"].(string)), value)
+			field = domain.NewItemField(strings.Title(jsonText(data["t"])), value)
 		}
 	}
 
@@ -194,10 +210,11 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	fields := make([]*domain.ItemField, 0)
 
 	if data["fields"] != nil {
-		fieldsData := data["fields"].([]interface{})
+		fieldsData, _ := data["fields"].([]interface{})
 
-		for _, fieldData := range fieldsData {
-			field := s.ParseItemField(true, fieldData.(map[string]interface{}))
+		for _, fieldJson := range fieldsData {
+			fieldData, _ := fieldJson.(map[string]interface{})
+			field := s.ParseItemField(true, fieldData)
 
 			if field != nil {
 				fields = append(fields, field)
@@ -210,7 +227,7 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	}
 
 	if data["title"] != nil {
-		title = strings.Title(data["title"].(string))
+		title = strings.Title(jsonText(data["title"]))
 	}
 
 	if fields == nil && title == "" {
-- 
2.43.0

