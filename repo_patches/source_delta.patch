From dbb3982696402c6f2140cbcbc30277c452b852fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 01/70] fix: a lone carriage return starts the next line after
 itself, not before

---
 analysis/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4371962..7647284 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -152,7 +152,7 @@ func calculateLineOffsets(text []byte, offset int) ([]int, string) {
 					stopDetectingEol = true
 				}
 			}
-			lineOffsets = append(lineOffsets, n+offset)
+			lineOffsets = append(lineOffsets, n+offset+size)
 		} else if r == '\n' {
 			lineOffsets = append(lineOffsets, n+offset+size)
 		}
-- 
2.43.0


From 58688686f76016ab886981623991c2d7db5a5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 02/70] fix: line offsets and line break style after an
 incremental change are those of the new text

---
 analysis/document.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 7647284..d219913 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -574,24 +574,9 @@ func (s *Document) ApplyChanges(changes []protocol.TextDocumentContentChangeEven
 		newText := append(s.text[:0:0], s.text[0:startOffset]...)
 		newText = append(newText, text...)
 		newText = append(newText, s.text[endOffset:]...)
-		s.text = newText
-
-		min := start.Line + 1
-		if min > len(s.lineOffsets) {
-			min = len(s.lineOffsets)
-		}
-		newLineOffsets := append(s.lineOffsets[:0:0], s.lineOffsets[0:min]...)
-		lengthDiff := len(text) - (endOffset - startOffset)
-		offsets, eol := calculateLineOffsets(text, startOffset)
-		s.detectedEOL = eol
-		newLineOffsets = append(newLineOffsets, offsets[1:]...)
-		if end.Line+1 < len(s.lineOffsets) {
-			endLineOffsets := s.lineOffsets[end.Line+1:]
-			for _, endLineOffset := range endLineOffsets {
-				newLineOffsets = append(newLineOffsets, endLineOffset+lengthDiff)
-			}
-		}
-		s.lineOffsets = newLineOffsets
+		// The splice can join or split line breaks at its seams, and the line break
+		// style is that of the whole text, so both are derived from the new text
+		s.SetText(newText)
 	}
 	util.TimeTrack(start, "contentChanges")
 	start = time.Now()
-- 
2.43.0


From 8ac197c5dcba463f8c51293be7693dd66f340839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 03/70] fix: positions count UTF-16 code units and clamp to the
 line and document end

---
 analysis/document.go | 45 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index d219913..9d830cf 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -181,19 +181,58 @@ func (s *Document) offsetAtLine(line int) int {
 	return s.lineOffsets[line]
 }
 
+// utf16Len returns the number of UTF-16 code units in text[start:end]
+func utf16Len(text []byte, start int, end int) int {
+	count := 0
+	for start < end {
+		size := 1
+		if start < len(text) && text[start] >= utf8.RuneSelf {
+			var r rune
+			r, size = utf8.DecodeRune(text[start:])
+			if r >= 0x10000 {
+				count++
+			}
+		}
+		start += size
+		count++
+	}
+	return count
+}
+
 func (s *Document) positionAt(offset int) protocol.Position {
 	line := s.lineAt(offset)
 	return protocol.Position{
 		Line:      line,
-		Character: offset - s.lineOffsets[line],
+		Character: utf16Len(s.text, s.lineOffsets[line], offset),
 	}
 }
 
+// lineEndAt returns the offset of the end of the line's content, its line break excluded
+func (s *Document) lineEndAt(line int) int {
+	if line+1 >= len(s.lineOffsets) {
+		return len(s.text)
+	}
+	start, end := s.offsetAtLine(line), s.offsetAtLine(line+1)
+	for end > start && (s.text[end-1] == '\n' || s.text[end-1] == '\r') {
+		end--
+	}
+	return end
+}
+
+// OffsetAtPosition returns the offset denoted by the position, whose character counts
+// UTF-16 code units. Positions past the end of a line or of the text are clamped
 func (s *Document) OffsetAtPosition(pos protocol.Position) int {
+	if pos.Line >= len(s.lineOffsets) {
+		return len(s.text)
+	}
 	offset := s.offsetAtLine(pos.Line)
+	lineEnd := s.lineEndAt(pos.Line)
 	offsetCharacter := 0
-	for i := 0; i < pos.Character; i++ {
-		_, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
+	for i := 0; i < pos.Character && offset+offsetCharacter < lineEnd; i++ {
+		r, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
+		if r >= 0x10000 {
+			i++
+		}
 		offsetCharacter += size
 	}
 	offset += offsetCharacter
-- 
2.43.0


From 166a6402298d231d037c474c1443ae7f30da9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 04/70] fix: the in-memory storage keeps its own copies of keys
 and values

---
 analysis/storage/memory.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/analysis/storage/memory.go b/analysis/storage/memory.go
index 25952fe..e4322b2 100644
--- a/analysis/storage/memory.go
+++ b/analysis/storage/memory.go
@@ -31,14 +31,14 @@ func (m *memory) Delete(key []byte) error {
 }
 
 func (m *memory) Put(key []byte, value []byte) error {
-	m.radix, _, _ = m.radix.Insert(key, value)
+	m.radix, _, _ = m.radix.Insert(copyByteSlice(key), copyByteSlice(value))
 	return nil
 }
 
 func (m *memory) Get(key []byte) ([]byte, error) {
 	if value, ok := m.radix.Get(key); ok {
 		if bys, ok := value.([]byte); ok {
-			return bys, nil
+			return copyByteSlice(bys), nil
 		}
 		return nil, fmt.Errorf("%T is not []byte", value)
 	}
@@ -77,7 +77,7 @@ func (b *memoryBatch) Delete(key []byte) {
 }
 
 func (b *memoryBatch) Put(key []byte, value []byte) {
-	b.txn.Insert(key, value)
+	b.txn.Insert(copyByteSlice(key), copyByteSlice(value))
 }
 
 func (b *memoryBatch) commit() *iradix.Tree {
@@ -106,11 +106,11 @@ func newMemoryIterator(m *memory, prefix []byte) *memoryIterator {
 }
 
 func (it *memoryIterator) Key() []byte {
-	return it.key
+	return copyByteSlice(it.key)
 }
 
 func (it *memoryIterator) Value() []byte {
-	return it.value
+	return copyByteSlice(it.value)
 }
 
 func (it *memoryIterator) Stop() {
-- 
2.43.0


From bcaf9d48e6f9d4ca2509b17766c436fac6bc050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 05/70] fix: a request whose id is the empty string is answered
 with that id, not with 0

---
 internal/jsonrpc2/wire.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/jsonrpc2/wire.go b/internal/jsonrpc2/wire.go
index 3e891e0..781371c 100644
--- a/internal/jsonrpc2/wire.go
+++ b/internal/jsonrpc2/wire.go
@@ -81,10 +81,13 @@ type VersionTag struct{}
 
 // ID is a Request identifier.
 // Only one of either the Name or Number members will be set, using the
-// number form if the Name is the empty string.
+// number form if the Name is the empty string, unless the identifier really
+// is the empty string.
 type ID struct {
 	Name   string
 	Number int64
+
+	emptyName bool
 }
 
 func (err *Error) Error() string {
@@ -116,14 +119,14 @@ func (id *ID) String() string {
 	if id == nil {
 		return ""
 	}
-	if id.Name != "" {
+	if id.Name != "" || id.emptyName {
 		return strconv.Quote(id.Name)
 	}
 	return "#" + strconv.FormatInt(id.Number, 10)
 }
 
 func (id *ID) MarshalJSON() ([]byte, error) {
-	if id.Name != "" {
+	if id.Name != "" || id.emptyName {
 		return json.Marshal(id.Name)
 	}
 	return json.Marshal(id.Number)
@@ -134,5 +137,8 @@ func (id *ID) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &id.Number); err == nil {
 		return nil
 	}
-	return json.Unmarshal(data, &id.Name)
+	id.Number = 0
+	err := json.Unmarshal(data, &id.Name)
+	id.emptyName = err == nil && id.Name == ""
+	return err
 }
-- 
2.43.0


From 71f897a09487e6075f85ffbc0c8541a0c743fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 06/70] fix: a request cancelled while it is handled still gets
 its reply

---
 internal/jsonrpc2/jsonrpc2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 62c8141..31cc400 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -13,6 +13,8 @@ import (
 	"fmt"
 	"sync"
 	"sync/atomic"
+
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 )
 
 // Conn is a JSON RPC 2 client server connection.
@@ -264,7 +266,8 @@ func (r *Request) Reply(ctx context.Context, result interface{}, err error) erro
 	for _, h := range r.conn.handlers {
 		ctx = h.Response(ctx, r.conn, Send, response)
 	}
-	n, err := r.conn.stream.Write(ctx, data)
+	// a cancelled request must still be answered
+	n, err := r.conn.stream.Write(xcontext.Detach(ctx), data)
 	for _, h := range r.conn.handlers {
 		ctx = h.Wrote(ctx, n)
 	}
-- 
2.43.0


From 456569dee042fae85bd2a183ee7b8c5536645b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 07/70] fix: a late, duplicate or unknown response no longer
 blocks the connection for ever

---
 internal/jsonrpc2/jsonrpc2.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 31cc400..3c9632c 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -150,8 +150,9 @@ func (c *Conn) Call(ctx context.Context, method string, params, result interface
 		ctx = h.Request(ctx, c, Send, request)
 	}
 	// we have to add ourselves to the pending map before we send, otherwise we
-	// are racing the response
-	rchan := make(chan *WireResponse)
+	// are racing the response, and the response must not have to wait for us
+	// because we may have been cancelled
+	rchan := make(chan *WireResponse, 1)
 	c.pendingMu.Lock()
 	c.pending[id] = rchan
 	c.pendingMu.Unlock()
@@ -383,6 +384,12 @@ func (c *Conn) Run(runCtx context.Context) error {
 				delete(c.pending, *msg.ID)
 			}
 			c.pendingMu.Unlock()
+			if rchan == nil {
+				for _, h := range c.handlers {
+					h.Error(runCtx, fmt.Errorf("response to unknown or cancelled call %v, ignoring", msg.ID))
+				}
+				continue
+			}
 			// and send the reply to the channel
 			response := &WireResponse{
 				Result: msg.Result,
-- 
2.43.0


From 33f4bedafb3e106ec7896ef45b8c6ce4b350282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 08/70] fix: completion entries of changed or removed symbols
 and namespaces are removed when a document is synced

---
 analysis/completionIndex.go | 16 +++++++++++-----
 analysis/store.go           | 12 +++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 82affd7..33dcdf0 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -54,12 +54,18 @@ func createCompletionEntries(uri string, indexable NameIndexable, symbolKey stri
 
 		completionKeys = append(completionKeys, entry.getKeyBytes())
 	}
-	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
+	entries = append(entries, createEntryToReferCompletionIndex(uri, indexable, symbolKey, completionKeys))
 	return entries
 }
 
-func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+// documentCompletionKey is the key of the entry listing the completion entries of a symbol.
+// Symbols of different kinds can have the same key, hence the index collection is a part of it
+func documentCompletionKey(uri string, indexable NameIndexable, symbolKey string) string {
+	return uri + KeySep + indexable.GetIndexCollection() + KeySep + symbolKey
+}
+
+func createEntryToReferCompletionIndex(uri string, indexable NameIndexable, symbolKey string, keys [][]byte) *entry {
+	entry := newEntry(documentCompletionIndex, documentCompletionKey(uri, indexable, symbolKey))
 	entry.e.WriteInt(len(keys))
 	for _, key := range keys {
 		entry.e.WriteBytes(key)
@@ -75,7 +81,7 @@ type completionIndexDeletor struct {
 func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
 	indexKeys := map[string]bool{}
 	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri)
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
 	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		keys[string(it.Key())] = true
 		d := storage.NewDecoder(it.Value())
@@ -96,7 +102,7 @@ func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexab
 		entry := newEntry(indexable.GetIndexCollection(), key)
 		delete(d.indexKeys, string(entry.getKeyBytes()))
 	}
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	entry := newEntry(documentCompletionIndex, documentCompletionKey(uri, indexable, symbolKey))
 	delete(d.keys, string(entry.getKeyBytes()))
 }
 
diff --git a/analysis/store.go b/analysis/store.go
index 2ba2f37..917f4e2 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -436,6 +436,7 @@ func (s *Store) SyncDocument(document *Document) {
 
 			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
 
+			ciDeletor.Delete(comB)
 			syDeletor.Delete(b)
 			entry := newEntry(documentCollection, document.GetURI())
 			b.Put(entry.getKeyBytes(), document.GetHash())
@@ -501,7 +502,7 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
 		for index, i := range is {
-			key := namespaceKey + KeySep + strconv.Itoa(index)
+			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
 			s.indexName(comBatch, document, i, key)
 			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
 		}
@@ -631,6 +632,7 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		scope = ""
 	}
 	namespaces := []string{}
+	found := mapset.New[string]()
 	collection := namespaceCompletionIndex
 	if len(scope) != 0 {
 		collection += KeySep + scope
@@ -639,8 +641,12 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		collection: collection,
 		keyword:    keyword,
 		onData: func(cv CompletionValue) onDataResult {
-			parts := strings.Split(string(cv), KeySep)
-			namespaces = append(namespaces, parts[0])
+			// Every document declaring the namespace has an entry
+			namespace := strings.Split(string(cv), KeySep)[0]
+			if !found.Has(namespace) {
+				found.Put(namespace)
+				namespaces = append(namespaces, namespace)
+			}
 			return onDataResult{false}
 		},
 	}
-- 
2.43.0


From fd68a2c067445193f975177c26f07267320bda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 09/70] fix: deleting a document deletes its completion entries

---
 analysis/store.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 917f4e2..7f186c8 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -367,14 +367,16 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	err := s.db.WriteBatch(func(b storage.Batch) error {
-		ciDeletor := newCompletionIndexDeletor(s.db, uri)
-		ciDeletor.Delete(b)
-		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
-		syDeletor.Delete(b)
-		s.refIndex.deleteURI(s, b, uri)
-		entry := newEntry(documentCollection, uri)
-		b.Delete(entry.getKeyBytes())
-		return nil
+		return s.comDB.WriteBatch(func(comB storage.Batch) error {
+			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+			ciDeletor.Delete(comB)
+			syDeletor := newSymbolDeletor(s.db, s.greb, uri)
+			syDeletor.Delete(b)
+			s.refIndex.deleteURI(s, b, uri)
+			entry := newEntry(documentCollection, uri)
+			b.Delete(entry.getKeyBytes())
+			return nil
+		})
 	})
 	if err != nil {
 		log.Println(err)
-- 
2.43.0


From 3b23a4c5f445c9e3d2f4ae51f78a7f2682a2e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 10/70] fix: class constants of same-named classes in different
 files no longer overwrite each other, and looking one up does not return
 those whose name it begins

---
 analysis/classConst.go | 2 +-
 analysis/store.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index c4036d4..186e77e 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -124,7 +124,7 @@ func (s *ClassConst) GetCollection() string {
 }
 
 func (s *ClassConst) GetKey() string {
-	return s.Scope.fqn + KeySep + s.Name
+	return s.Scope.GetFQN() + KeySep + s.Name + KeySep + s.location.URI
 }
 
 func (s *ClassConst) GetIndexableName() string {
diff --git a/analysis/store.go b/analysis/store.go
index 7f186c8..3039df0 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1005,7 +1005,7 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 // storage.
 // The word class is used loosely in here which means it can be interfaces/traits
 func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep+name)
+	entry := newEntry(classConstCollection, scope+KeySep+name+KeySep)
 	classConsts := []*ClassConst{}
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		d := storage.NewDecoder(it.Value())
-- 
2.43.0


From 7d9dc8d4b8f3026943bcb96835c6dfca8ee45dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 11/70] fix: closing a document drops its unsaved edits from
 the index

---
 analysis/store.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 3039df0..5aea686 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -346,8 +346,9 @@ func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Doc
 	return document
 }
 
-// CloseDocument syncs the document with the given URI and marks
-// it as close to release memory
+// CloseDocument marks the document with the given URI as closed to release memory,
+// and indexes the file again when it does not have the content of the closed document,
+// because edits that are not saved are gone
 func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 	document := s.GetOrCreateDocument(ctx, uri)
 	if document == nil {
@@ -355,12 +356,10 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 		return
 	}
 	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
 	document.Close()
-	s.SyncDocument(document)
+	document.Unlock()
+	s.releaseDocIfNotOpen(document)
+	s.CompareAndIndexDocument(ctx, uri)
 }
 
 // DeleteDocument deletes all symbols and indexes relating to the URI
@@ -442,6 +441,7 @@ func (s *Store) SyncDocument(document *Document) {
 			syDeletor.Delete(b)
 			entry := newEntry(documentCollection, document.GetURI())
 			b.Put(entry.getKeyBytes(), document.GetHash())
+			s.syncedDocumentURIs.Remove(document.GetURI())
 			return nil
 		})
 		return nil
-- 
2.43.0


From e469fd4728077d6839c0eda422292c6cd1cf169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 12/70] fix: closing a store closes its completion storage, so
 that the folder can be opened again

---
 analysis/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/store.go b/analysis/store.go
index 5aea686..ae600c4 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -247,6 +247,7 @@ func (s *Store) Close() {
 		return
 	}
 	s.db.Close()
+	s.comDB.Close()
 	s.greb.Close()
 	s.isClosed = true
 }
-- 
2.43.0


From 598e5c23e7d70810f5af660ff7cdb693621acb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 13/70] fix: deleting a folder spares files whose names merely
 begin with the folder's name

---
 analysis/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index ae600c4..42e3900 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -383,9 +383,9 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	}
 }
 
-// DeleteFolder searches for documents and triggers `DeleteDocument`
+// DeleteFolder searches for documents below the folder and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
+	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		uri := strings.Split(string(it.Key()), KeySep)[1]
 		s.DeleteDocument(uri)
-- 
2.43.0


From 487f0819afa5ccfbc04acf89ab6f25e0e695613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 14/70] fix: the visibility of a class constant is stored with
 it

---
 analysis/classConst.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index 186e77e..0d42233 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -150,10 +150,11 @@ func (s *ClassConst) Serialise(e *storage.Encoder) {
 	e.WriteString(s.Value)
 	s.Scope.Write(e)
 	serialiseDeprecatedTag(e, s.deprecatedTag)
+	e.WriteInt(int(s.VisibilityModifier))
 }
 
 func ReadClassConst(d *storage.Decoder) *ClassConst {
-	return &ClassConst{
+	classConst := &ClassConst{
 		location:      d.ReadLocation(),
 		description:   d.ReadString(),
 		Name:          d.ReadString(),
@@ -161,6 +162,10 @@ func ReadClassConst(d *storage.Decoder) *ClassConst {
 		Scope:         ReadTypeString(d),
 		deprecatedTag: deserialiseDeprecatedTag(d),
 	}
+	if d.Len() > 0 { // absent from what older versions stored
+		classConst.VisibilityModifier = VisibilityModifierValue(d.ReadInt())
+	}
+	return classConst
 }
 
 func (s *ClassConst) ReferenceFQN() string {
-- 
2.43.0


From 3fb37d12b2249a62e0ca4f2fd47603468cfc3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 15/70] fix: members declared after a nested class belong to
 the class around them

---
 analysis/anonymousClass.go |  1 +
 analysis/class.go          |  1 +
 analysis/document.go       | 27 +++++++++++++++++++--------
 analysis/interface.go      |  1 +
 analysis/trait.go          |  2 ++
 5 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/analysis/anonymousClass.go b/analysis/anonymousClass.go
index a6391d6..dd44f5c 100644
--- a/analysis/anonymousClass.go
+++ b/analysis/anonymousClass.go
@@ -35,6 +35,7 @@ func newAnonymousClass(a analyser, document *Document, node *phrase.Phrase) Symb
 	}
 
 	document.popBlock()
+	document.leaveClass()
 
 	return nil
 }
diff --git a/analysis/class.go b/analysis/class.go
index 01d8884..fbe8020 100644
--- a/analysis/class.go
+++ b/analysis/class.go
@@ -84,6 +84,7 @@ func newClass(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	}
 
 	document.popBlock()
+	document.leaveClass()
 
 	return nil
 }
diff --git a/analysis/document.go b/analysis/document.go
index 9d830cf..283c1f8 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -32,6 +32,7 @@ type Document struct {
 	variableTableLevel int
 	Children           []Symbol `json:"children"`
 	classStack         []Symbol
+	enclosingClasses   []Symbol
 	lastPhpDoc         *phpDocComment
 	hasChanges         bool
 	importTables       []*ImportTable
@@ -394,10 +395,10 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 // Even though the name indicates class but actually this will also
 // return interface and trait
 func (s *Document) getLastClass() Symbol {
-	if len(s.classStack) == 0 {
+	if len(s.enclosingClasses) == 0 {
 		return nil
 	}
-	return s.classStack[len(s.classStack)-1]
+	return s.enclosingClasses[len(s.enclosingClasses)-1]
 }
 
 // ClassAt returns a class, interface or trait at the position
@@ -429,7 +430,16 @@ func (s *Document) addClass(other Symbol) {
 		s.classStack = append(s.classStack, instance)
 	case *Trait:
 		s.classStack = append(s.classStack, instance)
+	default:
+		return
 	}
+	s.enclosingClasses = append(s.enclosingClasses, other)
+}
+
+// leaveClass ends the class most recently added, so that what follows belongs
+// to the class around it, if any
+func (s *Document) leaveClass() {
+	s.enclosingClasses = s.enclosingClasses[:len(s.enclosingClasses)-1]
 }
 
 // GetClassScopeAtSymbol returns the class scope at the symbol
@@ -452,13 +462,14 @@ func (s *Document) GetClassScopeAtSymbol(symbol Symbol) string {
 }
 
 func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
-	index := sort.Search(len(s.classStack), func(i int) bool {
-		return protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) <= 0
-	})
-	if index >= len(s.classStack) {
-		return nil
+	// Classes are in order of their starts, the last one to contain the
+	// position is therefore the innermost
+	for i := len(s.classStack) - 1; i >= 0; i-- {
+		if protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) == 0 {
+			return s.classStack[i]
+		}
 	}
-	return s.classStack[index]
+	return nil
 }
 
 func (s *Document) NodeSpineAt(offset int) util.NodeStack {
diff --git a/analysis/interface.go b/analysis/interface.go
index 209dc85..12b8944 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -47,6 +47,7 @@ func newInterface(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	}
 	theInterface.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.popBlock()
+	document.leaveClass()
 	return nil
 }
 
diff --git a/analysis/trait.go b/analysis/trait.go
index 6ceb9d0..0f07328 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -40,6 +40,8 @@ func newTrait(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		child = traverser.Advance()
 	}
 	document.popBlock()
+	document.leaveClass()
+
 	return nil
 }
 
-- 
2.43.0


From 7c356c489954bbc3e1cb1aae3cad982e7b748e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 16/70] fix: an interface's parents are resolved and may be
 fully qualified names

---
 analysis/interface.go | 9 +++++++--
 analysis/store.go     | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/analysis/interface.go b/analysis/interface.go
index 12b8944..532c55f 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -86,8 +86,13 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 			}
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.QualifiedName {
-					s.Extends = append(s.Extends, transformQualifiedName(p, document))
+				if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
+					extends := transformQualifiedName(p, document)
+					// A name of the global namespace is kept as it is written
+					if fqn := document.currImportTable().GetClassReferenceFQN(extends); fqn != "\\"+extends.GetFQN() {
+						extends.SetFQN(fqn)
+					}
+					s.Extends = append(s.Extends, extends)
 				}
 				child = traverser.Advance()
 			}
diff --git a/analysis/store.go b/analysis/store.go
index 42e3900..a8046a9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -738,6 +738,9 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 
 // GetInterfaces searches all the interfaces with the given name from the disk storage
 func (s *Store) GetInterfaces(name string) []*Interface {
+	if !IsFQN(name) { // as what an interface of the global namespace extends
+		name = "\\" + name
+	}
 	entry := newEntry(interfaceCollection, name+KeySep)
 	interfaces := []*Interface{}
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-- 
2.43.0


From c491635a15a103ad16120fbcd168dac78931bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 17/70] fix: the description of a @global tag is kept

---
 analysis/phpDocComment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analysis/phpDocComment.go b/analysis/phpDocComment.go
index 9fd866d..c79158a 100644
--- a/analysis/phpDocComment.go
+++ b/analysis/phpDocComment.go
@@ -261,6 +261,8 @@ func globalTag(tagName string, document *Document, node *phrase.Phrase) tag {
 				}
 			case phrase.TypeUnion:
 				ts = append(ts, processTypeUnionNode(document, p)...)
+			case phrase.DocumentCommentDescription:
+				description = readDescriptionNode(document, p)
 			}
 		} else if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
 			name = document.getTokenText(t)
-- 
2.43.0


From c5b9797a62554e0403a63ad19a10be76404d6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 18/70] fix: an unfinished doc comment tag at the end of the
 text no longer hangs the analysis

---
 analysis/document.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 283c1f8..e2c3ef9 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"bytes"
 	"crypto/sha1"
 	"encoding/json"
 	"regexp"
@@ -84,11 +85,32 @@ func (s *Document) IsOpen() bool {
 func (s *Document) GetRootNode() *phrase.Phrase {
 	if s.rootNode == nil {
 		defer util.TimeTrack(time.Now(), "GetRootNode")
-		s.rootNode = parser.Parse(s.GetText())
+		s.rootNode = parser.Parse(lexable(s.GetText()))
 	}
 	return s.rootNode
 }
 
+// lexable returns the text in a form that the lexer comes to the end of: it looks for
+// the white space which ends a tag of a doc comment, even past the end of the text
+func lexable(text []byte) []byte {
+	lastWord := text[bytes.LastIndexAny(text, " \t\r\n")+1:]
+	if bytes.IndexByte(lastWord, '@') >= 0 && bytes.Contains(text, []byte("/**")) {
+		return append(text[:len(text):len(text)], '\n')
+	}
+	return text
+}
+
+// textBetween returns the text between the offsets as far as there is any
+func (s *Document) textBetween(start, end int) string {
+	if end > len(s.text) {
+		end = len(s.text)
+	}
+	if start >= end {
+		return ""
+	}
+	return string(s.text[start:end])
+}
+
 // Load makes sure that symbols are available
 func (s *Document) Load() {
 	if !s.hasChanges {
@@ -291,7 +313,7 @@ func (s *Document) GetNodeLocation(node phrase.AstNode) protocol.Location {
 }
 
 func (s *Document) getTokenText(t *lexer.Token) string {
-	return string(s.text[t.Offset : t.Offset+t.Length])
+	return s.textBetween(t.Offset, t.Offset+t.Length)
 }
 
 func (s *Document) getPhraseText(p *phrase.Phrase) string {
@@ -299,7 +321,7 @@ func (s *Document) getPhraseText(p *phrase.Phrase) string {
 	if firstToken == nil || lastToken == nil {
 		return ""
 	}
-	return string(s.text[firstToken.Offset : lastToken.Offset+lastToken.Length])
+	return s.textBetween(firstToken.Offset, lastToken.Offset+lastToken.Length)
 }
 
 func (s *Document) GetNodeText(node phrase.AstNode) string {
-- 
2.43.0


From 8be0a8e2662180b43b12ade7b320ed2a36252309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:19 +0000
Subject: [PATCH 19/70] fix: a heredoc which begins near the end of the text no
 longer crashes the analysis

---
 analysis/document.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index e2c3ef9..45c8669 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -90,12 +90,24 @@ func (s *Document) GetRootNode() *phrase.Phrase {
 	return s.rootNode
 }
 
+var /* const */ heredocStart = regexp.MustCompile(`<<<[ \t]*['"]?([^\s'"]+)['"]?(\r\n|\n|\r)`)
+
 // lexable returns the text in a form that the lexer comes to the end of: it looks for
-// the white space which ends a tag of a doc comment, even past the end of the text
+// the white space which ends a tag of a doc comment, and for the label and the line break
+// which end a heredoc in its first line, even past the end of the text
 func lexable(text []byte) []byte {
+	missing := 0
 	lastWord := text[bytes.LastIndexAny(text, " \t\r\n")+1:]
 	if bytes.IndexByte(lastWord, '@') >= 0 && bytes.Contains(text, []byte("/**")) {
-		return append(text[:len(text):len(text)], '\n')
+		missing = 1
+	}
+	for _, m := range heredocStart.FindAllSubmatchIndex(text, -1) {
+		if n := m[3] - m[2] + 3; len(text)-m[1] < n*utf8.UTFMax && n > missing {
+			missing = n
+		}
+	}
+	if missing > 0 {
+		return append(text[:len(text):len(text)], bytes.Repeat([]byte{'\n'}, missing)...)
 	}
 	return text
 }
-- 
2.43.0


From e58f48aa16e8a31de7c6fa6ad577415a68aae935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 20/70] fix: a workspace folder that is missing or vanishes
 does not crash the server

---
 internal/lsp/protocol/fs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/lsp/protocol/fs.go b/internal/lsp/protocol/fs.go
index d905203..3414b0e 100644
--- a/internal/lsp/protocol/fs.go
+++ b/internal/lsp/protocol/fs.go
@@ -89,6 +89,7 @@ func (f *FileFS) ListFiles(ctx context.Context, base string) ([]TextDocumentIden
 	err := filepath.WalkDir(base, func(path string, info os.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("FileFS.WalkDir error: %v", err)
+			return nil
 		}
 
 		if !info.IsDir() {
-- 
2.43.0


From a4554a8f84551487de03cb5b491ee18ead19af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 21/70] fix: a syntax error at the end of a node does not crash
 the analysis

---
 util/parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/parser.go b/util/parser.go
index 3e0afe1..1202942 100644
--- a/util/parser.go
+++ b/util/parser.go
@@ -14,7 +14,11 @@ func FirstToken(node phrase.AstNode) *lexer.Token {
 		return e.Unexpected
 	}
 	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return FirstToken(p.Children[0])
+		for _, child := range p.Children {
+			if t := FirstToken(child); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
@@ -28,7 +32,11 @@ func LastToken(node phrase.AstNode) *lexer.Token {
 		return e.Unexpected
 	}
 	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return LastToken(p.Children[len(p.Children)-1])
+		for i := len(p.Children) - 1; i >= 0; i-- {
+			if t := LastToken(p.Children[i]); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 345b4d2561b3afeaec70c9facc6c7b32e276616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 22/70] fix: looking up properties and constants ends when
 classes extend each other

---
 analysis/query.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index c7288fe..6c39e83 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -654,8 +654,13 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	for len(classes) > 0 {
 		var class *Class
 		class, classes = classes[0], classes[1:]
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(class, q.GetClassConsts(class.Name.GetFQN(), name))...)
+			classConstWithScopeFromConsts(class, q.GetClassConsts(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classConsts.RelationMap.Relate(class.Name.GetFQN(), class.Extends.GetFQN())
@@ -898,7 +903,12 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
 		class, classes = classes[0], classes[1:]
-		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
+		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-- 
2.43.0


From 4255b2be02cecc40306b5bf52d6113d4f532c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 23/70] fix: a doc comment tag which its comment ends does not
 hang the analysis or swallow the code behind it

---
 analysis/document.go | 53 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 45c8669..2d6e0f6 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -92,6 +92,55 @@ func (s *Document) GetRootNode() *phrase.Phrase {
 
 var /* const */ heredocStart = regexp.MustCompile(`<<<[ \t]*['"]?([^\s'"]+)['"]?(\r\n|\n|\r)`)
 
+var /* const */ openEndedTag = regexp.MustCompile(`@author|@method`)
+
+// endTags returns the text in a form in which each tag of a doc comment ends with its
+// comment: the parser looks for the line break which ends an author, and for what follows
+// the value of a parameter, even past the end of the comment
+func endTags(text []byte) []byte {
+	if !openEndedTag.Match(text) {
+		return text
+	}
+	var authors, values []int
+	ended := append([]byte{}, text...)
+	l := lexer.NewLexer(text, nil, 0)
+	isInComment, isNameRead := false, false
+	for {
+		t := l.Lex()
+		switch t.Type {
+		case lexer.AtAuthor:
+			authors = append(authors, t.Offset)
+			isNameRead = false
+			continue
+		case lexer.Equals:
+			if isInComment {
+				values = append(values, t.Offset)
+			}
+		case lexer.Comma, lexer.CloseParenthesis:
+			values = nil
+		case lexer.DocumentCommentStart:
+			isInComment = true
+		case lexer.DocumentCommentEndline:
+			if isNameRead {
+				authors = nil
+			}
+		case lexer.DocumentCommentEnd, lexer.EndOfFile:
+			for _, offset := range authors {
+				ended[offset+1] = '_' // is not an author then, but some other tag
+			}
+			for _, offset := range values {
+				ended[offset] = ' '
+			}
+			authors, values = nil, nil
+			isInComment = false
+		}
+		if t.Type == lexer.EndOfFile {
+			return ended
+		}
+		isNameRead = isNameRead || t.Type < lexer.Comment
+	}
+}
+
 // lexable returns the text in a form that the lexer comes to the end of: it looks for
 // the white space which ends a tag of a doc comment, and for the label and the line break
 // which end a heredoc in its first line, even past the end of the text
@@ -107,9 +156,9 @@ func lexable(text []byte) []byte {
 		}
 	}
 	if missing > 0 {
-		return append(text[:len(text):len(text)], bytes.Repeat([]byte{'\n'}, missing)...)
+		text = append(text[:len(text):len(text)], bytes.Repeat([]byte{'\n'}, missing)...)
 	}
-	return text
+	return endTags(text)
 }
 
 // textBetween returns the text between the offsets as far as there is any
-- 
2.43.0


From d13d58ddd5befd1997c2511dac230676194df998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 24/70] fix: a document list that cannot be read is logged and
 does not end the server

---
 analysis/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index a8046a9..9fe9011 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -136,7 +136,7 @@ func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool
 		}
 	}
 	if err != nil {
-		log.Fatal(err)
+		log.Println(err)
 	}
 }
 
-- 
2.43.0


From 6680d0045b64ac3247c78a5d6fb6a5dddc07881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 25/70] fix: a name of a use declaration that ends with a
 backslash does not hang the analysis

---
 analysis/document.go | 52 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 2d6e0f6..038df83 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -141,6 +141,56 @@ func endTags(text []byte) []byte {
 	}
 }
 
+var /* const */ danglingBackslash = regexp.MustCompile(`(?is)\buse\b[^;{(]*(,|\bas\b)[^;{(]*\\`)
+
+// endUseClauses returns the text in a form without those backslashes of use declarations
+// which no name follows: the parser comes back to one behind the first clause for ever
+func endUseClauses(text []byte) []byte {
+	if !danglingBackslash.Match(text) {
+		return text
+	}
+	ended := append([]byte{}, text...)
+	l := lexer.NewLexer(text, nil, 0)
+	isUse, isFirst, isClass := false, false, false
+	var isClassBody []bool
+	backslash := -1
+	for {
+		t := l.Lex()
+		if t.Type >= lexer.Comment {
+			continue
+		}
+		if backslash >= 0 && t.Type != lexer.Name {
+			ended[backslash] = ' '
+		}
+		backslash = -1
+		switch t.Type {
+		case lexer.EndOfFile:
+			return ended
+		case lexer.Class, lexer.Trait:
+			isClass = !isUse
+		case lexer.Use:
+			isUse = len(isClassBody) == 0 || !isClassBody[len(isClassBody)-1]
+			isFirst = true
+		case lexer.Comma, lexer.As:
+			isFirst = false
+		case lexer.Backslash:
+			if isUse && !isFirst {
+				backslash = t.Offset
+			}
+		case lexer.OpenBrace:
+			isClassBody = append(isClassBody, isClass)
+			isUse, isClass = false, false
+		case lexer.CloseBrace:
+			if len(isClassBody) > 0 {
+				isClassBody = isClassBody[:len(isClassBody)-1]
+			}
+			isUse = false
+		case lexer.Semicolon, lexer.CloseTag, lexer.OpenParenthesis:
+			isUse = false
+		}
+	}
+}
+
 // lexable returns the text in a form that the lexer comes to the end of: it looks for
 // the white space which ends a tag of a doc comment, and for the label and the line break
 // which end a heredoc in its first line, even past the end of the text
@@ -158,7 +208,7 @@ func lexable(text []byte) []byte {
 	if missing > 0 {
 		text = append(text[:len(text):len(text)], bytes.Repeat([]byte{'\n'}, missing)...)
 	}
-	return endTags(text)
+	return endUseClauses(endTags(text))
 }
 
 // textBetween returns the text between the offsets as far as there is any
-- 
2.43.0


From 6ffa16639e4185d99e317b54e92c5304624fde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 26/70] fix: completing a property without a name does not
 crash

---
 internal/lsp/completion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 7e8c5b9..9efaaca 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -400,7 +400,7 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 	}
 	for _, p := range props {
 		item := propToCompletionItem(p)
-		item.Label = item.Label[1:]
+		item.Label = strings.TrimPrefix(item.Label, "$")
 		completionList.Items = append(completionList.Items, item)
 		scores = append(scores, p.Score)
 	}
-- 
2.43.0


From 2543150315c1f9376b4ceb07b3d12c6edbd7164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 27/70] fix: completion search reports truncation exactly,
 honours scopes and finds every word

The limit was reported as reached when the last match just fitted and lost when
several kinds share one list, searching namespaces ignored it, scoped class
searches ignored restrictions and letter case, traits were never found in a
scope, and a one-letter word before an underscore was not indexed.
---
 analysis/store.go                | 36 +++++++++++++++++++-------------
 analysis/trait.go                |  9 ++++++++
 analysis/wordtokeniser/casing.go |  6 ++----
 internal/lsp/completion.go       | 25 ++++++++++++----------
 4 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 9fe9011..534b398 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -190,12 +190,12 @@ func (s SearchOptions) WithLimit(limit int) SearchOptions {
 	count := 0
 	s.limiter = func() bool {
 		count++
-		return count >= limit
+		return count > limit
 	}
 	return s
 }
 
-// IsLimitReached returns true if the limitter reaches the limit
+// IsLimitReached returns true if another result exceeds the limit
 func (s SearchOptions) IsLimitReached() bool {
 	if s.limiter == nil {
 		return false
@@ -647,6 +647,9 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 			// Every document declaring the namespace has an entry
 			namespace := strings.Split(string(cv), KeySep)[0]
 			if !found.Has(namespace) {
+				if options.IsLimitReached() {
+					return onDataResult{true}
+				}
 				found.Put(namespace)
 				namespaces = append(namespaces, namespace)
 			}
@@ -687,27 +690,30 @@ func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onData
 func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
 	if scope != "" {
 		if keyword != "" {
+			keyword = strings.ToLower(keyword)
 			options = options.WithPredicate(func(s Symbol) bool {
 				if v, ok := s.(*Class); ok {
-					return strings.Contains(v.Name.GetOriginal(), keyword)
+					return strings.Contains(strings.ToLower(v.Name.GetOriginal()), keyword)
 				}
 				return false
 			})
 		}
+		isComplete := true
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
-				classes = append(classes, class)
 				if options.IsLimitReached() {
+					isComplete = false
 					return onDataResult{true}
 				}
+				classes = append(classes, class)
 			}
 			return onDataResult{false}
 		})
-		return classes, SearchResult{true}
+		return classes, SearchResult{isComplete}
 	}
-	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
 		collection: classCompletionIndex,
 		keyword:    keyword,
@@ -724,10 +730,10 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 			d := storage.NewDecoder(value)
 			class := ReadClass(d)
 			if isSymbolValid(class, options) {
-				classes = append(classes, class)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				classes = append(classes, class)
 			}
 			return onDataResult{false}
 		},
@@ -768,10 +774,10 @@ func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Inte
 			d := storage.NewDecoder(value)
 			theInterface := ReadInterface(d)
 			if isSymbolValid(theInterface, options) {
-				interfaces = append(interfaces, theInterface)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				interfaces = append(interfaces, theInterface)
 			}
 			return onDataResult{false}
 		},
@@ -809,10 +815,10 @@ func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, S
 			d := storage.NewDecoder(value)
 			trait := ReadTrait(d)
 			if isSymbolValid(trait, options) {
-				traits = append(traits, trait)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				traits = append(traits, trait)
 			}
 			return onDataResult{false}
 		},
@@ -854,10 +860,10 @@ func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Funct
 			d := storage.NewDecoder(value)
 			function := ReadFunction(d)
 			if isSymbolValid(function, options) {
-				functions = append(functions, function)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				functions = append(functions, function)
 			}
 			return onDataResult{false}
 		},
@@ -892,10 +898,10 @@ func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, S
 			d := storage.NewDecoder(value)
 			constant := ReadConst(d)
 			if isSymbolValid(constant, options) {
-				consts = append(consts, constant)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				consts = append(consts, constant)
 			}
 			return onDataResult{false}
 		},
@@ -930,10 +936,10 @@ func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define,
 			d := storage.NewDecoder(value)
 			define := ReadDefine(d)
 			if isSymbolValid(define, options) {
-				defines = append(defines, define)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				defines = append(defines, define)
 			}
 			return onDataResult{false}
 		},
@@ -993,10 +999,10 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 			d := storage.NewDecoder(value)
 			method := ReadMethod(d)
 			if isSymbolValid(method, options) {
-				methods = append(methods, method)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				methods = append(methods, method)
 			}
 			return onDataResult{false}
 		},
@@ -1053,10 +1059,10 @@ func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOp
 			d := storage.NewDecoder(value)
 			classConst := ReadClassConst(d)
 			if isSymbolValid(classConst, options) {
-				classConsts = append(classConsts, classConst)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				classConsts = append(classConsts, classConst)
 			}
 			return onDataResult{false}
 		},
@@ -1108,10 +1114,10 @@ func (s *Store) SearchProperties(scope string, keyword string, options SearchOpt
 			d := storage.NewDecoder(value)
 			property := ReadProperty(d)
 			if isSymbolValid(property, options) {
-				properties = append(properties, property)
 				if options.IsLimitReached() {
 					return onDataResult{true}
 				}
+				properties = append(properties, property)
 			}
 			return onDataResult{false}
 		},
diff --git a/analysis/trait.go b/analysis/trait.go
index 0f07328..c06ff53 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -88,6 +88,15 @@ func (s *Trait) GetIndexCollection() string {
 	return traitCompletionIndex
 }
 
+// GetScope returns the namespace of the trait
+func (s *Trait) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Trait) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Trait) Serialise(e *storage.Encoder) {
 	e.WriteLocation(s.location)
 	s.Name.Write(e)
diff --git a/analysis/wordtokeniser/casing.go b/analysis/wordtokeniser/casing.go
index ae7e70b..a73fafc 100644
--- a/analysis/wordtokeniser/casing.go
+++ b/analysis/wordtokeniser/casing.go
@@ -15,7 +15,6 @@ func casing(name string) []string {
 	lastClass := 0
 	start := 0
 	prev := 0
-	lastTokenIndex := 0
 	markNextAsStart := false
 	appendWord := func(word string) {
 		if start == 0 {
@@ -25,15 +24,14 @@ func casing(name string) []string {
 	}
 	for i, r := range name {
 		if isNotToken(r) {
-			if start < lastTokenIndex {
-				words = append(words, name[start:lastTokenIndex+1])
+			if start < i {
+				words = append(words, name[start:i])
 			}
 			lastClass = 0
 			start = i + 1
 			prev = i + 1
 			continue
 		}
-		lastTokenIndex = i
 		if markNextAsStart {
 			start = i
 			markNextAsStart = false
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 9efaaca..4114c08 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -225,13 +225,13 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -247,7 +247,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	defines, searchResult := store.SearchDefines(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -264,7 +264,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	functions, searchResult := store.SearchFunctions(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
@@ -284,7 +284,8 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	if analysis.IsFQN(word) {
-		namespaces, _ := store.SearchNamespaces(word, opts)
+		namespaces, searchResult := store.SearchNamespaces(word, opts)
+		completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 		for _, ns := range namespaces {
 			completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 		}
@@ -434,7 +435,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -450,7 +451,8 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	if analysis.IsFQN(word) {
-		namespaces, _ := store.SearchNamespaces(word, opts)
+		namespaces, searchResult := store.SearchNamespaces(word, opts)
+		completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 		for _, ns := range namespaces {
 			completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 		}
@@ -491,22 +493,23 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
-	namespaces, _ := store.SearchNamespaces(t.GetFQN(), opts)
+	namespaces, searchResult := store.SearchNamespaces(t.GetFQN(), opts)
+	completionList.IsIncomplete = !searchResult.IsComplete
 	for _, ns := range namespaces {
 		completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 	}
 	classes, searchResult := store.SearchClasses(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, class := range classes {
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, class.Name.GetOriginal(), nil))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, intf.Name.GetOriginal(), nil))
 	}
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, trait := range traits {
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, trait.Name.GetOriginal(), nil))
 	}
-- 
2.43.0


From 7ca799048aec3e5d50c11492a0efc8dc4e2cfdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 28/70] fix: load a document that is not open before answering
 completion, signature, references and rename

Those handlers used a document as read from disk without its symbols, and
completion indexed into its empty import tables.
---
 internal/lsp/completion.go | 3 +++
 internal/lsp/reference.go  | 6 ++++++
 internal/lsp/signature.go  | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 4114c08..ab93872 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -69,6 +69,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	document.Load()
+	document.Unlock()
 	var completionList *protocol.CompletionList = nil
 	pos := params.Position
 	q := analysis.NewQuery(store)
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 443b5df..1c2cbfb 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -35,6 +35,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	document.Load()
+	document.Unlock()
 	pos := params.TextDocumentPositionParams.Position
 	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	// log.Printf("Reference: %v %s", pos, nodes)
@@ -96,6 +99,9 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	if doc == nil {
 		return nil, nil
 	}
+	doc.Lock()
+	doc.Load()
+	doc.Unlock()
 	pos := params.Position
 	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 5c9ff7c..b64d876 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -29,6 +29,9 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	document.Load()
+	document.Unlock()
 	pos := params.TextDocumentPositionParams.Position
 	nodeStack := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	if nodeStack.Parent().Type == phrase.ArrayInitialiserList {
-- 
2.43.0


From 8168242ec0ba69e12c3774247303f2e8a9d299bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:57 +0000
Subject: [PATCH 29/70] fix: open, change, index and delete a document one at a
 time

Indexing in the background and an editor opening the same document could each
create one and forget the other's, leaving an open document unknown to the
server, and a document looked at once was kept and hid what changed on disk.
---
 analysis/store.go              | 79 +++++++++++++++++++++++-----------
 internal/lsp/workspaceStore.go |  8 +---
 2 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 534b398..7d768d9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -3,11 +3,13 @@ package analysis
 import (
 	"bytes"
 	"context"
+	"hash/fnv"
 	"log"
 	"os"
 	"path"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/Masterminds/semver"
@@ -117,6 +119,7 @@ type Store struct {
 	refIndex  *referenceIndex
 	stubbers  []stub.Stubber
 	documents cmap.ConcurrentMap
+	docLocks  [64]sync.Mutex
 	isClosed  bool
 
 	syncedDocumentURIs   cmap.ConcurrentMap
@@ -310,6 +313,17 @@ func (s *Store) LoadStubs() {
 	log.Printf("LoadStubs took %s", time.Since(start))
 }
 
+// lockDocument makes sure that the document with the given URI is opened, changed,
+// indexed and deleted by one at a time, so that the index and the documents in memory
+// are those of the last one
+func (s *Store) lockDocument(uri protocol.DocumentURI) (unlock func()) {
+	h := fnv.New32a()
+	h.Write([]byte(uri))
+	mu := &s.docLocks[h.Sum32()%uint32(len(s.docLocks))]
+	mu.Lock()
+	return mu.Unlock
+}
+
 // GetOrCreateDocument checks if the store contains the given URI or
 // create a new document with the given URI
 func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
@@ -321,7 +335,6 @@ func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentUR
 			return nil
 		}
 		document = NewDocument(uri, data)
-		s.SaveDocOnStore(document)
 	} else {
 		document = value.(*Document)
 	}
@@ -331,41 +344,63 @@ func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentUR
 // OpenDocument loads and index the document with the given URI, at the same time
 // marks it as open to retain it on the memory
 func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	defer s.lockDocument(uri)()
 	document := s.GetOrCreateDocument(ctx, uri)
 	if document == nil {
 		log.Printf("Document %s not found", uri)
 		return nil
 	}
 	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+	defer document.Unlock()
 	document.Open()
 	document.Load()
 	s.SyncDocument(document)
+	s.SaveDocOnStore(document)
 	return document
 }
 
+// ChangeDocument applies the changes to a new version of the document with the
+// given URI and indexes it
+func (s *Store) ChangeDocument(ctx context.Context, uri protocol.DocumentURI,
+	changes []protocol.TextDocumentContentChangeEvent) *Document {
+	defer s.lockDocument(uri)()
+	document := s.GetOrCreateDocument(ctx, uri)
+	if document == nil {
+		return nil
+	}
+	newDoc := document.CloneForMutate()
+	newDoc.ApplyChanges(changes)
+	s.SyncDocument(newDoc)
+	s.SaveDocOnStore(newDoc)
+	return newDoc
+}
+
 // CloseDocument marks the document with the given URI as closed to release memory,
 // and indexes the file again when it does not have the content of the closed document,
 // because edits that are not saved are gone
 func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("document %s not found", uri)
-		return
+	defer s.lockDocument(uri)()
+	if value, ok := s.documents.Get(uri); ok {
+		document := value.(*Document)
+		document.Lock()
+		document.Close()
+		document.Unlock()
+		s.documents.Remove(uri)
+	}
+	if s.compareAndIndex(ctx, uri) == nil {
+		// There is no file to go back to
+		s.deleteDocument(uri)
 	}
-	document.Lock()
-	document.Close()
-	document.Unlock()
-	s.releaseDocIfNotOpen(document)
-	s.CompareAndIndexDocument(ctx, uri)
 }
 
 // DeleteDocument deletes all symbols and indexes relating to the URI
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
+	defer s.lockDocument(uri)()
+	s.deleteDocument(uri)
+}
+
+func (s *Store) deleteDocument(uri protocol.DocumentURI) {
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		return s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
@@ -396,15 +431,17 @@ func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
 // on the disk, and if they are not matched load the document and sync.
 // The pointer to the document is returned
 func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
+	defer s.lockDocument(uri)()
+	return s.compareAndIndex(ctx, uri)
+}
+
+func (s *Store) compareAndIndex(ctx context.Context, uri string) *Document {
 	document := s.GetOrCreateDocument(ctx, uri)
 	if document == nil {
 		return nil
 	}
 	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+	defer document.Unlock()
 
 	currentMD5 := document.GetHash()
 	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
@@ -452,12 +489,6 @@ func (s *Store) SyncDocument(document *Document) {
 	}
 }
 
-func (s *Store) releaseDocIfNotOpen(document *Document) {
-	if !document.IsOpen() {
-		s.documents.Remove(document.uri)
-	}
-}
-
 // SaveDocOnStore retains the document in memory
 func (s *Store) SaveDocOnStore(document *Document) {
 	s.documents.Set(document.GetURI(), document)
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 31603cf..fdb858d 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -243,14 +243,10 @@ func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.Di
 	if store == nil {
 		return nil
 	}
-	document := store.GetOrCreateDocument(ctx, uri)
-	if document == nil {
+	newDoc := store.ChangeDocument(ctx, uri, params.ContentChanges)
+	if newDoc == nil {
 		return nil
 	}
-	newDoc := document.CloneForMutate()
-	newDoc.ApplyChanges(params.ContentChanges)
-	store.SyncDocument(newDoc)
-	store.SaveDocOnStore(newDoc)
 	s.server.provideDiagnostics(ctx, store, newDoc)
 	return nil
 }
-- 
2.43.0


From d682a64a644b0e4f5ec98da7bd881cc9d8283763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 30/70] fix: open documents with the client's text, and keep
 files that were created again

An opened document had the text of the file, which is not what later edits refer
to when they differ, and a deletion handled after the creation that followed it
removed an existing file from the index.
---
 analysis/store.go              | 13 +++++--------
 internal/lsp/sync.go           |  6 ++----
 internal/lsp/workspaceStore.go |  4 ++++
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 7d768d9..9599caa 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -341,15 +341,12 @@ func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentUR
 	return document
 }
 
-// OpenDocument loads and index the document with the given URI, at the same time
-// marks it as open to retain it on the memory
-func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+// OpenDocument loads and indexes the document with the given URI and the text that
+// the client has, which can differ from the file's, at the same time marks it as open
+// to retain it on the memory
+func (s *Store) OpenDocument(uri protocol.DocumentURI, text string) *Document {
 	defer s.lockDocument(uri)()
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("Document %s not found", uri)
-		return nil
-	}
+	document := NewDocument(uri, []byte(text))
 	document.Lock()
 	defer document.Unlock()
 	document.Open()
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index a685252..067bc9e 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -19,10 +19,8 @@ func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocume
 	if store == nil {
 		return nil
 	}
-	document := store.OpenDocument(ctx, uri)
-	if document != nil {
-		s.provideDiagnostics(ctx, store, document)
-	}
+	document := store.OpenDocument(uri, params.TextDocument.Text)
+	s.provideDiagnostics(ctx, store, document)
 	return nil
 }
 
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index fdb858d..460b725 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -87,6 +87,10 @@ func (s *workspaceStore) newDeletor(id int) {
 			continue
 		}
 		s.removeDocument(store, uri)
+		// What was deleted can have been created again before it was removed
+		s.server.didChangeWatchedFiles(s.ctx, &protocol.DidChangeWatchedFilesParams{
+			Changes: []protocol.FileEvent{{URI: uri, Type: protocol.Created}},
+		})
 	}
 }
 
-- 
2.43.0


From b0741f0c77c9c330e8bf01e527e1d2d72450ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 31/70] fix: one URI for each file, and no characters lost
 between paths and URIs

Paths with a plus, a percent sign or a colon were read as other paths, such a file
had different URIs when opened, found and watched, and an undecodable one left
indexing waiting for ever.
---
 internal/lsp/completion.go     |  2 +-
 internal/lsp/definition.go     |  2 +-
 internal/lsp/hover.go          |  3 +-
 internal/lsp/reference.go      |  5 +--
 internal/lsp/signature.go      |  5 +--
 internal/lsp/symbol.go         |  5 +--
 internal/lsp/sync.go           |  4 +--
 internal/lsp/workspaceStore.go | 17 +++-------
 util/uri.go                    | 62 +++++++++++++++-------------------
 9 files changed, 47 insertions(+), 58 deletions(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index ab93872..8255848 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -60,7 +60,7 @@ func (i incompleteMemberAccess) ScopeName() string {
 
 func (s *Server) completion(ctx context.Context, params *protocol.CompletionParams) (*protocol.CompletionList, error) {
 	defer util.TimeTrack(time.Now(), "completion")
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index 85f499c..a50c567 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -10,7 +10,7 @@ import (
 
 func (s *Server) definition(ctx context.Context, params *protocol.DefinitionParams) ([]protocol.Location, error) {
 	locations := []protocol.Location{}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index c29be26..753beb0 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -6,10 +6,11 @@ import (
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*protocol.Hover, error) {
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 1c2cbfb..ec7ab58 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -6,6 +6,7 @@ import (
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 func classScopeFQNAt(document *analysis.Document, pos protocol.Position) string {
@@ -26,7 +27,7 @@ func classScopeFQNAt(document *analysis.Document, pos protocol.Position) string
 
 func (s *Server) references(ctx context.Context, params *protocol.ReferenceParams) ([]protocol.Location, error) {
 	results := []protocol.Location{}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
@@ -90,7 +91,7 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 }
 
 func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*protocol.WorkspaceEdit, error) {
-	uri := params.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index b64d876..e979afa 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -8,6 +8,7 @@ import (
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHelpParams) (*protocol.SignatureHelp, error) {
@@ -20,7 +21,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 		ActiveSignature: 0,
 		ActiveParameter: 0,
 	}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
@@ -56,7 +57,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 }
 
 func (s *Server) documentSignatures(ctx context.Context, params *protocol.TextDocumentIdentifier) ([]protocol.TextEdit, error) {
-	uri := params.URI
+	uri := util.NormaliseURI(params.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 6ecdec7..014686f 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 func toDocumentSymbolRecursive(symbol analysis.Symbol) protocol.DocumentSymbol {
@@ -26,8 +27,8 @@ func toDocumentSymbolRecursive(symbol analysis.Symbol) protocol.DocumentSymbol {
 
 func (s *Server) documentSymbol(ctx context.Context, params *protocol.DocumentSymbolParams) ([]protocol.DocumentSymbol, error) {
 	symbols := []protocol.DocumentSymbol{}
-	uri := params.TextDocument.URI
-	store := s.store.getStore(params.TextDocument.URI)
+	uri := util.NormaliseURI(params.TextDocument.URI)
+	store := s.store.getStore(uri)
 	if store == nil {
 		return symbols, nil
 	}
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 067bc9e..4020e51 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -14,7 +14,7 @@ import (
 )
 
 func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil
@@ -29,7 +29,7 @@ func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDo
 }
 
 func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 460b725..a24467d 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -50,11 +50,7 @@ func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
 
 func (s *workspaceStore) newCreator(id int) {
 	for job := range s.createJobs {
-		uri, err := util.DecodeURIFromQuery(job.uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
-			continue
-		}
+		uri := util.NormaliseURI(job.uri)
 		store := s.getStore(uri)
 		if store == nil {
 			if job.waitGroup != nil {
@@ -76,12 +72,7 @@ func (s *workspaceStore) newCreator(id int) {
 
 func (s *workspaceStore) newDeletor(id int) {
 	for uri := range s.deleteJobs {
-		var err error
-		uri, err = util.DecodeURIFromQuery(uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", uri, err)
-			continue
-		}
+		uri = util.NormaliseURI(uri)
 		store := s.getStore(uri)
 		if store == nil {
 			continue
@@ -101,6 +92,7 @@ func (s *workspaceStore) close() {
 }
 
 func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	uri = util.NormaliseURI(uri)
 	u, err := url.Parse(uri)
 	if err != nil {
 		log.Printf("%s: %v", uri, err)
@@ -147,6 +139,7 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 }
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	uri = util.NormaliseURI(uri)
 	store := s.getStore(uri)
 	if store == nil {
 		return
@@ -242,7 +235,7 @@ func (s *workspaceStore) removeDocument(store *analysis.Store, uri string) {
 }
 
 func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := util.NormaliseURI(params.TextDocument.URI)
 	store := s.getStore(uri)
 	if store == nil {
 		return nil
diff --git a/util/uri.go b/util/uri.go
index 44fedda..9d01265 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -4,7 +4,6 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"errors"
-	"fmt"
 	"io"
 	"net/url"
 	"strings"
@@ -21,13 +20,9 @@ func URIToPath(uri string) (string, error) {
 	if urlIns.Scheme != "file" {
 		return "", errors.New("cannot convert non-file URI")
 	}
-	filePath, err := url.QueryUnescape(urlIns.Path)
+	filePath := urlIns.Path
 
-	if err != nil {
-		return "", err
-	}
-
-	if strings.Contains(filePath, ":") {
+	if len(filePath) > 1 && isDrive(strings.SplitN(filePath[1:], "/", 2)[0]) {
 		filePath = strings.TrimPrefix(filePath, "/")
 		filePath = strings.Replace(filePath, "/", "\\", -1)
 	}
@@ -35,27 +30,37 @@ func URIToPath(uri string) (string, error) {
 	return filePath, nil
 }
 
+// isDrive tells whether the first part of a path is that of a Windows path, e.g. C:
+func isDrive(part string) bool {
+	return len(part) == 2 && part[1] == ':' &&
+		('a' <= part[0] && part[0] <= 'z' || 'A' <= part[0] && part[0] <= 'Z')
+}
+
 // PathToURI converts file path to URI
 func PathToURI(path string) string {
-	urlIns := new(url.URL)
-	path = strings.Replace(strings.Trim(path, "/"), "\\", "/", -1)
-	parts := strings.Split(path, "/")
-	first, parts := parts[0], parts[1:]
-
-	if !strings.HasSuffix(first, ":") {
-		first = url.QueryEscape(first)
+	if isDrive(strings.SplitN(path, "\\", 2)[0]) {
+		path = strings.Replace(path, "\\", "/", -1)
 	}
+	parts := strings.Split(strings.Trim(path, "/"), "/")
 
-	tempParts := parts[:0]
-	for _, part := range parts {
-		tempParts = append(tempParts, url.QueryEscape(part))
+	for i, part := range parts {
+		if i == 0 && isDrive(part) {
+			continue
+		}
+		parts[i] = strings.Replace(url.QueryEscape(part), "+", "%20", -1)
 	}
-	parts = append([]string{first}, tempParts...)
 
-	urlIns.Scheme = "file"
-	urlIns.Path = "/" + strings.Join(parts, "/")
+	return "file:///" + strings.Join(parts, "/")
+}
 
-	return urlIns.String()
+// NormaliseURI returns the one URI of the file that the given URI refers to, because
+// clients differ in the characters that they escape
+func NormaliseURI(uri string) string {
+	path, err := URIToPath(uri)
+	if err != nil {
+		return uri
+	}
+	return PathToURI(path)
 }
 
 // GetURIID shortens the URI but still readable
@@ -69,7 +74,7 @@ func GetURIID(uri string) string {
 		return hash
 	}
 	parts := strings.Split(u.Path, "/")
-	if parts[len(parts)-1] == "" {
+	if len(parts) > 1 && parts[len(parts)-1] == "" {
 		parts = parts[:len(parts)-1]
 	}
 	parts, lastPart := parts[:len(parts)-1], parts[len(parts)-1]
@@ -109,16 +114,3 @@ func IsURINavigatable(uri string) bool {
 	// e.g. FTP, HTTP or other storage providers
 	return strings.HasPrefix(uri, "file://")
 }
-
-func DecodeURIFromQuery(uri string) (string, error) {
-	uri, err := url.QueryUnescape(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot QueryUnescape %s, err: %v", uri, err)
-	}
-	u, err := url.Parse(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot Parse %s, err: %v", uri, err)
-	}
-	uri = u.String()
-	return uri, nil
-}
-- 
2.43.0


From b55a2b768fe09809a8c58aadf03a75d37fb7c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 32/70] fix: a file belongs to the innermost workspace folder,
 also when folders come and go

A folder whose name begins with that of another had its files put into the wrong
index, files of a nested folder were in both, the folders were changed while
workers read them, a folder's index was closed while it was written to, and open
documents were forgotten when their folder was removed and added again.
---
 analysis/store.go              |  17 ++++-
 internal/lsp/symbol.go         |   2 +-
 internal/lsp/sync.go           |  11 ++-
 internal/lsp/workspaceStore.go | 119 ++++++++++++++++++++++++++++++---
 4 files changed, 129 insertions(+), 20 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 9599caa..109c9d9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -120,6 +120,7 @@ type Store struct {
 	stubbers  []stub.Stubber
 	documents cmap.ConcurrentMap
 	docLocks  [64]sync.Mutex
+	closeMu   sync.RWMutex
 	isClosed  bool
 
 	syncedDocumentURIs   cmap.ConcurrentMap
@@ -246,6 +247,8 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 
 // Close triggers close on the fuzzy engine, and closes the disk storage
 func (s *Store) Close() {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
 	if s.isClosed {
 		return
 	}
@@ -315,13 +318,17 @@ func (s *Store) LoadStubs() {
 
 // lockDocument makes sure that the document with the given URI is opened, changed,
 // indexed and deleted by one at a time, so that the index and the documents in memory
-// are those of the last one
+// are those of the last one, and that the store is not closed meanwhile
 func (s *Store) lockDocument(uri protocol.DocumentURI) (unlock func()) {
 	h := fnv.New32a()
 	h.Write([]byte(uri))
 	mu := &s.docLocks[h.Sum32()%uint32(len(s.docLocks))]
 	mu.Lock()
-	return mu.Unlock
+	s.closeMu.RLock()
+	return func() {
+		s.closeMu.RUnlock()
+		mu.Unlock()
+	}
 }
 
 // GetOrCreateDocument checks if the store contains the given URI or
@@ -398,6 +405,9 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 }
 
 func (s *Store) deleteDocument(uri protocol.DocumentURI) {
+	if s.isClosed {
+		return
+	}
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		return s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
@@ -464,6 +474,9 @@ func (s *Store) compareAndIndex(ctx context.Context, uri string) *Document {
 // or the fuzzy engine
 func (s *Store) SyncDocument(document *Document) {
 	defer util.TimeTrack(time.Now(), "SyncDocument")
+	if s.isClosed {
+		return
+	}
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 014686f..6adf609 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -134,7 +134,7 @@ func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.Workspace
 	symbols := []protocol.SymbolInformation{}
 	if params.Query != "" {
 		opts := baseSearchOptions()
-		for _, store := range s.store.stores {
+		for _, store := range s.store.allStores() {
 			classes, _ := store.SearchClasses(params.Query, opts)
 			for _, class := range classes {
 				symbols = append(symbols, protocol.SymbolInformation{
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 4020e51..3f84b36 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -10,16 +10,16 @@ import (
 	"sync"
 
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
 func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
 	uri := util.NormaliseURI(params.TextDocument.URI)
-	store := s.store.getStore(uri)
+	document, store := s.store.openDocument(uri, params.TextDocument.Text)
 	if store == nil {
 		return nil
 	}
-	document := store.OpenDocument(uri, params.TextDocument.Text)
 	s.provideDiagnostics(ctx, store, document)
 	return nil
 }
@@ -30,15 +30,12 @@ func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDo
 
 func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
 	uri := util.NormaliseURI(params.TextDocument.URI)
-	store := s.store.getStore(uri)
-	if store == nil {
-		return nil
-	}
-	store.CloseDocument(ctx, uri)
+	s.store.closeDocument(ctx, uri)
 	return nil
 }
 
 func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
+	ctx = xcontext.Detach(ctx)
 	go func() {
 		var wg sync.WaitGroup
 		changes := append(params.Changes[:0:0], params.Changes...)
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index a24467d..5753ca2 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
@@ -26,7 +27,10 @@ type creatorJob struct {
 type workspaceStore struct {
 	server     *Server
 	ctx        context.Context
+	storesMu   sync.RWMutex
 	stores     []*analysis.Store
+	openDocsMu sync.Mutex
+	openDocs   map[string]*analysis.Document
 	createJobs chan creatorJob
 	deleteJobs chan string
 }
@@ -36,6 +40,7 @@ func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
 		server:     server,
 		ctx:        ctx,
 		stores:     []*analysis.Store{},
+		openDocs:   map[string]*analysis.Document{},
 		createJobs: make(chan creatorJob),
 		deleteJobs: make(chan string),
 	}
@@ -58,12 +63,16 @@ func (s *workspaceStore) newCreator(id int) {
 			}
 			log.Printf("workspaceStore.newCreator store not found: %s", uri)
 			log.Printf("Stores:")
-			for _, store := range s.stores {
+			for _, store := range s.allStores() {
 				log.Println(store.GetURI())
 			}
 			continue
 		}
 		store.CompareAndIndexDocument(job.ctx, uri)
+		if s.getStore(uri) != store {
+			// A folder containing the file has been added meanwhile
+			store.DeleteDocument(uri)
+		}
 		if job.waitGroup != nil {
 			job.waitGroup.Done()
 		}
@@ -86,13 +95,16 @@ func (s *workspaceStore) newDeletor(id int) {
 }
 
 func (s *workspaceStore) close() {
-	for _, store := range s.stores {
+	for _, store := range s.allStores() {
 		store.Close()
 	}
 }
 
 func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
 	uri = util.NormaliseURI(uri)
+	if s.getStoreOfFolder(uri) != nil {
+		return
+	}
 	u, err := url.Parse(uri)
 	if err != nil {
 		log.Printf("%s: %v", uri, err)
@@ -126,10 +138,13 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 	}
 	store.Migrate(protocol.GetVersion(ctx))
 	store.LoadStubs()
-	s.stores = append(s.stores, store)
-	if err != nil {
-		log.Printf("addView error: %v", err)
-		return
+	outer := s.getStore(uri)
+	s.storesMu.Lock()
+	s.stores = append(s.stores[:len(s.stores):len(s.stores)], store)
+	s.storesMu.Unlock()
+	s.reopenDocuments(ctx, store, outer)
+	if outer != nil {
+		outer.DeleteFolder(uri)
 	}
 	s.indexFolder(ctx, store, rootPath)
 	err = s.registerFileWatcher(ctx, uri, server)
@@ -140,12 +155,18 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
 	uri = util.NormaliseURI(uri)
-	store := s.getStore(uri)
+	store := s.getStoreOfFolder(uri)
 	if store == nil {
 		return
 	}
 	defer store.Close()
 	s.removeStore(store.GetURI())
+	if outer := s.getStore(uri); outer != nil {
+		s.reopenDocuments(ctx, outer, nil)
+		server.didChangeWatchedFiles(ctx, &protocol.DidChangeWatchedFilesParams{
+			Changes: []protocol.FileEvent{{URI: uri, Type: protocol.Created}},
+		})
+	}
 	s.unregisterFileWatcher(ctx, uri, server)
 }
 
@@ -182,6 +203,8 @@ func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string,
 
 func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string) {
 	var waitGroup sync.WaitGroup
+	// Indexing goes on after the request that starts it
+	ctx = xcontext.Detach(ctx)
 	store.PrepareForIndexing()
 	go func() {
 		log.Println("Start indexing")
@@ -211,24 +234,91 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 	}()
 }
 
+// getStore returns the store of the innermost folder that contains the given URI
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
-	for _, store := range s.stores {
-		if strings.HasPrefix(uri, store.GetURI()) {
+	var found *analysis.Store
+	for _, store := range s.allStores() {
+		folder := strings.TrimSuffix(store.GetURI(), "/")
+		if uri != folder && !strings.HasPrefix(uri, folder+"/") {
+			continue
+		}
+		if found == nil || len(store.GetURI()) > len(found.GetURI()) {
+			found = store
+		}
+	}
+	return found
+}
+
+func (s *workspaceStore) getStoreOfFolder(uri protocol.DocumentURI) *analysis.Store {
+	for _, store := range s.allStores() {
+		if store.GetURI() == uri {
 			return store
 		}
 	}
 	return nil
 }
 
+func (s *workspaceStore) allStores() []*analysis.Store {
+	s.storesMu.RLock()
+	defer s.storesMu.RUnlock()
+	return s.stores
+}
+
 func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
+	s.storesMu.Lock()
+	defer s.storesMu.Unlock()
 	for i, store := range s.stores {
 		if store.GetURI() == uri {
-			s.stores = append(s.stores[:i], s.stores[i+1:]...)
+			s.stores = append(s.stores[:i:i], s.stores[i+1:]...)
 			break
 		}
 	}
 }
 
+// rememberDocument keeps the open documents regardless of the folders, which can be
+// added and removed while documents are open
+func (s *workspaceStore) rememberDocument(document *analysis.Document) {
+	s.openDocsMu.Lock()
+	defer s.openDocsMu.Unlock()
+	s.openDocs[document.GetURI()] = document
+}
+
+// reopenDocuments opens in the given store the open documents that belong to it, and
+// closes them in the one that they belonged to
+func (s *workspaceStore) reopenDocuments(ctx context.Context, store *analysis.Store, previous *analysis.Store) {
+	s.openDocsMu.Lock()
+	defer s.openDocsMu.Unlock()
+	for uri, document := range s.openDocs {
+		if s.getStore(uri) == store {
+			if previous != nil {
+				previous.CloseDocument(ctx, uri)
+			}
+			s.openDocs[uri] = store.OpenDocument(uri, string(document.GetText()))
+		}
+	}
+}
+
+func (s *workspaceStore) openDocument(uri protocol.DocumentURI, text string) (*analysis.Document, *analysis.Store) {
+	store := s.getStore(uri)
+	document := analysis.NewDocument(uri, []byte(text))
+	if store != nil {
+		document = store.OpenDocument(uri, text)
+	}
+	s.rememberDocument(document)
+	return document, store
+}
+
+func (s *workspaceStore) closeDocument(ctx context.Context, uri protocol.DocumentURI) {
+	s.openDocsMu.Lock()
+	delete(s.openDocs, uri)
+	s.openDocsMu.Unlock()
+	store := s.getStore(uri)
+	if store == nil {
+		return
+	}
+	store.CloseDocument(ctx, uri)
+}
+
 func (s *workspaceStore) removeDocument(store *analysis.Store, uri string) {
 	store.DeleteDocument(uri)
 	store.DeleteFolder(uri)
@@ -238,12 +328,21 @@ func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.Di
 	uri := util.NormaliseURI(params.TextDocument.URI)
 	store := s.getStore(uri)
 	if store == nil {
+		s.openDocsMu.Lock()
+		defer s.openDocsMu.Unlock()
+		if document, ok := s.openDocs[uri]; ok {
+			s.openDocs[uri] = document.CloneForMutate()
+			s.openDocs[uri].ApplyChanges(params.ContentChanges)
+		}
 		return nil
 	}
 	newDoc := store.ChangeDocument(ctx, uri, params.ContentChanges)
 	if newDoc == nil {
 		return nil
 	}
+	if newDoc.IsOpen() {
+		s.rememberDocument(newDoc)
+	}
 	s.server.provideDiagnostics(ctx, store, newDoc)
 	return nil
 }
-- 
2.43.0


From c87a2deea16583018c66c639c39499376aa7ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 33/70] fix: keep an open document indexed when its file is
 deleted

---
 analysis/store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index 109c9d9..8dc3308 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -401,6 +401,10 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	defer s.lockDocument(uri)()
+	if document, ok := s.documents.Get(uri); ok && document.(*Document).IsOpen() {
+		// What the editor has is still there
+		return
+	}
 	s.deleteDocument(uri)
 }
 
-- 
2.43.0


From 1dc7be8947a68babf91e7c0d828765a33f016227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:44 +0000
Subject: [PATCH 34/70] fix: deleting a folder also deletes what is below it in
 the workspace folders it contains

---
 internal/lsp/workspaceStore.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 5753ca2..749c070 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -83,10 +83,15 @@ func (s *workspaceStore) newDeletor(id int) {
 	for uri := range s.deleteJobs {
 		uri = util.NormaliseURI(uri)
 		store := s.getStore(uri)
-		if store == nil {
-			continue
+		if store != nil {
+			s.removeDocument(store, uri)
+		}
+		for _, inner := range s.allStores() {
+			// A workspace folder can be below what was deleted
+			if strings.HasPrefix(inner.GetURI(), uri+"/") {
+				s.removeDocument(inner, uri)
+			}
 		}
-		s.removeDocument(store, uri)
 		// What was deleted can have been created again before it was removed
 		s.server.didChangeWatchedFiles(s.ctx, &protocol.DidChangeWatchedFilesParams{
 			Changes: []protocol.FileEvent{{URI: uri, Type: protocol.Created}},
-- 
2.43.0


From 69212d9b56b66153c973765e423ca40a5f52a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:14 +0000
Subject: [PATCH 35/70] fix: the data directory of a folder with a long path
 has a name that fits

---
 util/uri.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/uri.go b/util/uri.go
index 9d01265..2102554 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -89,6 +89,10 @@ func GetURIID(uri string) string {
 		}
 	}
 	result += "-" + hash[:8]
+	if len(result) > 255 {
+		// No file can have a name this long
+		return hash
+	}
 	return result
 }
 
-- 
2.43.0


From 6de22c41d5543d278e5ed02a3cf18be2ac9b0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:42 +0000
Subject: [PATCH 36/70] fix: a document whose indexing was interrupted by a
 crash is indexed again

The symbols, the completion index and the list of a document's symbols are
in three databases written one after the other; the hash of the document was
written with the first, so a crash in between left the others incomplete for
good. Clearing the database for an upgrade left the completion index behind.
---
 analysis/store.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 8dc3308..bf17496 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -165,6 +165,16 @@ func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
 	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
 }
 
+// remaining returns the symbols which are going to be deleted
+func (d *symbolDeletor) remaining() []documentSymbol {
+	var symbols []documentSymbol
+	d.symbols.Each(func(s string) {
+		parts := strings.SplitN(s, KeySep, 2)
+		symbols = append(symbols, documentSymbol{collection: parts[0], key: parts[1]})
+	})
+	return symbols
+}
+
 func (d *symbolDeletor) Delete(batch storage.Batch) {
 	d.symbols.Each(func(key string) {
 		batch.Delete([]byte(key))
@@ -276,6 +286,7 @@ func (s *Store) PutVersion(version string) {
 // Clear triggers a disk clear
 func (s *Store) Clear() {
 	s.db.Clear()
+	s.comDB.Clear()
 }
 
 // Migrate checks for defined version if it is less than
@@ -412,6 +423,7 @@ func (s *Store) deleteDocument(uri protocol.DocumentURI) {
 	if s.isClosed {
 		return
 	}
+	s.markNotSynced(uri)
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		return s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
@@ -429,6 +441,16 @@ func (s *Store) deleteDocument(uri protocol.DocumentURI) {
 	}
 }
 
+// markNotSynced records on the disk that what is indexed for the URI may be
+// incomplete until its hash is written again, or the document is deleted.
+// The databases are written one after the other, if the process ends in
+// between the document is indexed again at the next start
+func (s *Store) markNotSynced(uri protocol.DocumentURI) {
+	if err := s.db.Put(newEntry(documentCollection, uri).getKeyBytes(), []byte{}); err != nil {
+		log.Println(err)
+	}
+}
+
 // DeleteFolder searches for documents below the folder and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
 	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
@@ -481,13 +503,18 @@ func (s *Store) SyncDocument(document *Document) {
 	if s.isClosed {
 		return
 	}
+	s.markNotSynced(document.GetURI())
+	var documentSymbols, oldSymbols []documentSymbol
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
 			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
 			s.refIndex.deleteURI(s, b, document.GetURI())
 
-			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+			documentSymbols = s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+			// What is about to be deleted stays listed until it is
+			oldSymbols = syDeletor.remaining()
+			s.indexDocumentSymbols(document, append(oldSymbols, documentSymbols...))
 
 			ciDeletor.Delete(comB)
 			syDeletor.Delete(b)
@@ -500,6 +527,10 @@ func (s *Store) SyncDocument(document *Document) {
 	})
 	if err != nil {
 		log.Print(err)
+		return
+	}
+	if len(oldSymbols) > 0 {
+		s.indexDocumentSymbols(document, documentSymbols)
 	}
 }
 
@@ -545,7 +576,7 @@ func (s *Store) getSyncedDocumentURIs() map[string][]byte {
 }
 
 func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
-	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
+	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) []documentSymbol {
 	var documentNamespaces []documentNamespace
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
@@ -599,12 +630,12 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 			}
 		}
 	})
-	s.indexDocumentSymbols(document, batch, documentSymbols)
 	s.indexDocumentNamespaces(document, batch, documentNamespaces)
 	s.refIndex.index(s, document, batch, referenceEntryInfos)
+	return documentSymbols
 }
 
-func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
+func (s *Store) indexDocumentSymbols(document *Document, symbols []documentSymbol) {
 	uri := document.GetURI()
 	entry := newEntry(documentSymbolsCollection, uri)
 	entry.e.WriteInt(len(symbols))
-- 
2.43.0


From adede7d7b4410844eac92daac087b52d4ea398aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 37/70] fix: members are looked up and accessed as in PHP

A private or protected static member was accessible from everywhere by the
name of its class, the private members of a parent from its children, and
protected ones never by an object of a class above. A member which is not
accessible did not hide the one it overrides. Properties of used traits were
not found. Searching filtered the cached members in place, and a lookup which
leaves out what is found already was cached as complete, so that the answer
depended on what was asked before.
---
 analysis/document.go |   2 +
 analysis/query.go    | 402 ++++++++++++++++++++++---------------------
 2 files changed, 212 insertions(+), 192 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 038df83..4db7283 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -590,6 +590,8 @@ func (s *Document) GetClassScopeAtSymbol(symbol Symbol) string {
 		return v.Name.GetFQN()
 	case *Interface:
 		return v.Name.GetFQN()
+	case *Trait:
+		return v.Name.GetFQN()
 	}
 	return ""
 }
diff --git a/analysis/query.go b/analysis/query.go
index 6c39e83..cde1950 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -129,12 +129,13 @@ type MethodWithScope struct {
 	Method *Method
 	Scope  Symbol
 	Score  int
+	class  string
 }
 
-func methodWithScopeFromMethods(scope Symbol, methods []*Method) []MethodWithScope {
+func methodWithScopeFromMethods(scope Symbol, class string, methods []*Method) []MethodWithScope {
 	results := []MethodWithScope{}
 	for _, method := range methods {
-		results = append(results, MethodWithScope{method, scope, 0})
+		results = append(results, MethodWithScope{method, scope, 0, class})
 	}
 	return results
 }
@@ -159,125 +160,117 @@ func MergeMethodWithScope(items ...[]MethodWithScope) []MethodWithScope {
 	return results
 }
 
-// Relations represents the related FQNs
-type Relations map[string]struct{}
-
-// Relate sets the related FQNs
-func (r Relations) Relate(otherFQN string) {
-	r[otherFQN] = struct{}{}
+// memberOfClass is a member and the class which has it, the members of a trait
+// are of the class which uses it
+type memberOfClass struct {
+	MemberSymbol
+	name  string
+	class string
 }
 
-// IsRelated checks if the other FQN is related
-func (r Relations) IsRelated(otherFQN string) bool {
-	if _, ok := r[otherFQN]; ok {
-		return true
+// isSubclass checks if the class is the other class, or extends it
+func (q *Query) isSubclass(fqn string, otherFQN string) bool {
+	visited := map[string]struct{}{}
+	fqns := []string{fqn}
+	for len(fqns) > 0 {
+		fqn, fqns = fqns[0], fqns[1:]
+		if fqn == otherFQN {
+			return true
+		}
+		if _, ok := visited[fqn]; ok || fqn == "" {
+			continue
+		}
+		visited[fqn] = struct{}{}
+		for _, class := range q.GetClasses(fqn) {
+			if class.Name.GetFQN() == otherFQN {
+				return true
+			}
+			fqns = append(fqns, class.Extends.GetFQN())
+		}
 	}
 	return false
 }
 
-// RelationMap is the map for relationships
-type RelationMap map[string]Relations
-
-// IsRelated checks if this FQN is related to other FQN
-func (r RelationMap) IsRelated(thisFQN string, otherFQN string) bool {
-	if relations, ok := r[thisFQN]; ok && relations.IsRelated(otherFQN) {
+// canAccess checks if code of the current class can access the first of the members,
+// the rest are the members which it overrides
+func (q *Query) canAccess(currentClass string, members []memberOfClass) bool {
+	member := members[0]
+	switch member.Visibility() {
+	case Public:
 		return true
+	case Private:
+		return currentClass == member.class
 	}
-	return false
-}
-
-// Relate sets the related FQNs
-func (r RelationMap) Relate(thisFQN string, otherFQN string) {
-	var curr Relations
-	if m, ok := r[thisFQN]; ok {
-		curr = m
-	} else {
-		curr = Relations{}
+	if currentClass == "" || q == nil {
+		return false
 	}
-	curr.Relate(otherFQN)
-	r[thisFQN] = curr
-}
-
-// Merge merges other relation map to current
-func (r RelationMap) Merge(other RelationMap) {
-	for fqn, relations := range other {
-		for otherFQN := range relations {
-			r.Relate(fqn, otherFQN)
+	// What counts is the first class which has it
+	class := member.class
+	for _, m := range members[1:] {
+		if m.name == member.name && m.Visibility() == Protected && q.isSubclass(class, m.class) {
+			class = m.class
 		}
 	}
+	return q.isSubclass(currentClass, class) || q.isSubclass(class, currentClass)
 }
 
-// IsInheritedStatic checks the given conditions if it can be inherited
-func IsInheritedStatic(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) bool {
+// accessibleMembers returns the indexes of the members which can be accessed from the
+// current class, the members have to be in order, the nearest first.
+// Rules:
+// - The nearest member of a name is the one, whether it can be accessed or not
+// - On an instance the private member of the current class goes before the ones of
+//   the classes which extend it
+// - Private constants are not inherited
+// - If the access is static, instance properties are not accessible, and instance
+//   methods only if the name of the scope is relative (parent, static, self)
+func (q *Query) accessibleMembers(currentClass string, access MemberAccess, members []memberOfClass, isStatic bool) []int {
+	results := []int{}
 	scopeName := access.ScopeName()
-	scopeTypes := access.ScopeTypes()
-	memberScopeFQN := member.ScopeTypeString().GetFQN()
-	visibility := member.Visibility()
-	isStatic := member.IsStatic()
-	if IsNameParent(scopeName) {
-		return memberScopeFQN != currentClass && visibility != Private
-	}
-	if IsNameRelative(scopeName) {
-		return memberScopeFQN == currentClass || visibility != Private
-	}
-	if !isStatic {
-		return false
-	}
-	if visibility == Public {
-		return true
-	}
-	var (
-		isSameClass bool
-		isRelated   bool
-	)
-	for _, ts := range scopeTypes.Resolve() {
-		fqn := ts.GetFQN()
-		if fqn == memberScopeFQN {
-			isSameClass = true
-			break
+	isRelative := IsNameRelative(scopeName) || IsNameParent(scopeName)
+	decidedNames := make(map[string]struct{})
+	for i, m := range members {
+		if _, ok := decidedNames[m.name]; ok {
+			continue
+		}
+		if !isStatic {
+			for j := i; j < len(members); j++ {
+				if members[j].name == m.name && members[j].class == currentClass {
+					if members[j].Visibility() == Private {
+						i, m = j, members[j]
+					}
+					break
+				}
+			}
 		}
-		if relationMap.IsRelated(memberScopeFQN, fqn) {
-			isRelated = true
-			break
+		if _, ok := m.MemberSymbol.(*ClassConst); ok && m.Visibility() == Private && !isScopeOf(access, m.class) {
+			continue
+		}
+		decidedNames[m.name] = struct{}{}
+		if isStatic && !m.IsStatic() {
+			if _, ok := m.MemberSymbol.(*Method); !ok || !isRelative {
+				continue
+			}
+		}
+		if q.canAccess(currentClass, members[i:]) {
+			results = append(results, i)
 		}
 	}
-	return isSameClass || (isRelated && visibility == Protected)
+	return results
 }
 
-// IsInherited checks whether the given conditions can inherit the symbol with non-static rules
-func IsInherited(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) bool {
-	scopeName := access.ScopeName()
-	scopeTypes := access.ScopeTypes()
-	memberScopeFQN := member.ScopeTypeString().GetFQN()
-	visibility := member.Visibility()
-	if scopeName == "$this" && (memberScopeFQN == currentClass || visibility != Private) {
-		return true
-	}
-	if visibility == Public {
-		return true
-	}
-	var (
-		isSameClass bool
-		isRelated   bool
-	)
-	for _, ts := range scopeTypes.Resolve() {
-		fqn := ts.GetFQN()
-		if fqn == currentClass {
-			isSameClass = true
-			break
-		}
-		if relationMap.IsRelated(memberScopeFQN, fqn) {
-			isRelated = true
-			break
+func isScopeOf(access MemberAccess, class string) bool {
+	for _, ts := range access.ScopeTypes().Resolve() {
+		if ts.GetFQN() == class {
+			return true
 		}
 	}
-	return isSameClass || (isRelated && visibility == Protected)
+	return false
 }
 
 // InheritedMethods contains the methods and the searched scope names
 type InheritedMethods struct {
 	Methods      []MethodWithScope
-	RelationMap  RelationMap
+	query        *Query
 	SearchedFQNs map[string]struct{}
 }
 
@@ -290,7 +283,6 @@ func EmptyInheritedMethods() InheritedMethods {
 func NewInheritedMethods(methods []MethodWithScope, searchedFQNs map[string]struct{}) InheritedMethods {
 	return InheritedMethods{
 		Methods:      methods,
-		RelationMap:  RelationMap{},
 		SearchedFQNs: searchedFQNs,
 	}
 }
@@ -305,7 +297,9 @@ func (m *InheritedMethods) Merge(other InheritedMethods) {
 	for fqn := range other.SearchedFQNs {
 		m.SearchedFQNs[fqn] = struct{}{}
 	}
-	m.RelationMap.Merge(other.RelationMap)
+	if m.query == nil {
+		m.query = other.query
+	}
 }
 
 // ReduceFirst ignores static or non-static rules and returns the first
@@ -320,48 +314,33 @@ func (m InheritedMethods) ReduceFirst() MethodWithScope {
 	return MethodWithScope{}
 }
 
+func (m InheritedMethods) members() []memberOfClass {
+	members := make([]memberOfClass, 0, len(m.Methods))
+	for _, m := range m.Methods {
+		members = append(members, memberOfClass{m.Method, m.Method.Name, m.class})
+	}
+	return members
+}
+
 // ReduceStatic filters the methods by the static rules, even though
-// the methods are not necessarily static, e.g. self::NonStaticMethod().
-// Rules:
-// - If the `name` is parent, includes methods not from current class and not private
-// - If the `name` is relative (static, self), includes methods from same class or not
-//   private methods
-// - Otherwise, includes methods that are static and public
+// the methods are not necessarily static, e.g. self::NonStaticMethod()
 func (m InheritedMethods) ReduceStatic(currentClass string, access MemberAccess) []MethodWithScope {
-	var results []MethodWithScope
-	duplicatedNames := make(map[string]struct{})
-	for _, ms := range m.Methods {
-		if _, ok := duplicatedNames[ms.Method.Name]; ok {
-			continue
-		}
-		if IsInheritedStatic(currentClass, access, m.RelationMap, ms.Method) {
-			results = append(results, ms)
-			duplicatedNames[ms.Method.Name] = struct{}{}
-		}
+	results := []MethodWithScope{}
+	for _, i := range m.query.accessibleMembers(currentClass, access, m.members(), true) {
+		results = append(results, m.Methods[i])
 	}
 	return results
 }
 
 // ReduceAccess filters the methods by the access rules
-// Rules:
-// - If the `name` is $this includes the scope is the current class or not private methods
-// - If the type of `scope` is the same as the current class, private methods can
-//   be accessed
-// - Else, only public methods can be accessed
 func (m InheritedMethods) ReduceAccess(currentClass string, access MemberAccess) []MethodWithScope {
-	var results []MethodWithScope
-	duplicatedNames := make(map[string]struct{})
-	for _, ms := range m.Methods {
-		if _, ok := duplicatedNames[ms.Method.Name]; ok {
-			continue
-		}
-		if IsInherited(currentClass, access, m.RelationMap, ms.Method) {
-			if ms.Method.isStatic {
-				ms.Score -= staticInAccessCost
-			}
-			results = append(results, ms)
-			duplicatedNames[ms.Method.Name] = struct{}{}
+	results := []MethodWithScope{}
+	for _, i := range m.query.accessibleMembers(currentClass, access, m.members(), false) {
+		member := m.Methods[i]
+		if member.Method.isStatic {
+			member.Score -= staticInAccessCost
 		}
+		results = append(results, member)
 	}
 	return results
 }
@@ -404,7 +383,10 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 			return methods
 		}
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
+	methods.query = q
 	methodsFromInterfaces := NewInheritedMethods(nil, searchedFQNs)
 	for len(classes) > 0 {
 		var class *Class
@@ -414,13 +396,14 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 			continue
 		}
 		searchedFQNs[scope] = struct{}{}
-		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(class, q.GetMethods(scope, name))...)
+		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(class, scope, q.GetMethods(scope, name))...)
 		for _, use := range class.Use {
 			if use.IsEmpty() {
 				continue
 			}
 			for _, trait := range q.store.GetTraits(use.GetFQN()) {
-				methods.Merge(q.GetTraitMethods(trait, name))
+				methods.Methods = append(methods.Methods,
+					methodWithScopeFromMethods(trait, scope, q.GetMethods(trait.Name.GetFQN(), name))...)
 			}
 		}
 		if !class.Extends.IsEmpty() {
@@ -438,7 +421,9 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		}
 	}
 	methods.Merge(methodsFromInterfaces)
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -456,7 +441,10 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			return methods
 		}
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
+	methods.query = q
 	for len(interfaces) > 0 {
 		var intf *Interface
 		intf, interfaces = interfaces[0], interfaces[1:]
@@ -465,7 +453,7 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			continue
 		}
 		searchedFQNs[scope] = struct{}{}
-		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(intf, q.GetMethods(scope, name))...)
+		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(intf, scope, q.GetMethods(scope, name))...)
 		for _, extend := range intf.Extends {
 			if extend.IsEmpty() {
 				continue
@@ -477,7 +465,9 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			}
 		}
 	}
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -489,9 +479,11 @@ func (q *Query) GetTraitMethods(trait *Trait, name string) InheritedMethods {
 			return methods
 		}
 	}
+	scope := trait.Name.GetFQN()
 	methods := NewInheritedMethods(
-		methodWithScopeFromMethods(trait, q.GetMethods(trait.Name.GetFQN(), name)),
+		methodWithScopeFromMethods(trait, scope, q.GetMethods(scope, name)),
 		make(map[string]struct{}))
+	methods.query = q
 	q.cache[cacheKey] = methods
 	return methods
 }
@@ -503,7 +495,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	}
 	methods := q.GetClassMethods(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := methods.Methods[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -523,7 +515,7 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	}
 	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := methods.Methods[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -541,12 +533,13 @@ type ClassConstWithScope struct {
 	Const *ClassConst
 	Scope Symbol
 	Score int
+	class string
 }
 
-func classConstWithScopeFromConsts(scope Symbol, classConsts []*ClassConst) []ClassConstWithScope {
+func classConstWithScopeFromConsts(scope Symbol, class string, classConsts []*ClassConst) []ClassConstWithScope {
 	results := []ClassConstWithScope{}
 	for _, classConst := range classConsts {
-		results = append(results, ClassConstWithScope{classConst, scope, 0})
+		results = append(results, ClassConstWithScope{classConst, scope, 0, class})
 	}
 	return results
 }
@@ -574,7 +567,7 @@ func MergeClassConstWithScope(items ...[]ClassConstWithScope) []ClassConstWithSc
 // InheritedClassConst contains class consts including inherited ones
 type InheritedClassConst struct {
 	Consts       []ClassConstWithScope
-	RelationMap  RelationMap
+	query        *Query
 	SearchedFQNs map[string]struct{}
 }
 
@@ -587,7 +580,6 @@ func EmptyInheritedClassConst() InheritedClassConst {
 func NewInheritedClassConst(consts []ClassConstWithScope, searchedFQNs map[string]struct{}) InheritedClassConst {
 	return InheritedClassConst{
 		Consts:       consts,
-		RelationMap:  make(map[string]Relations),
 		SearchedFQNs: searchedFQNs,
 	}
 }
@@ -598,21 +590,24 @@ func (c *InheritedClassConst) Merge(other InheritedClassConst) {
 	for fqn := range other.SearchedFQNs {
 		c.SearchedFQNs[fqn] = struct{}{}
 	}
-	c.RelationMap.Merge(other.RelationMap)
+	if c.query == nil {
+		c.query = other.query
+	}
+}
+
+func (c InheritedClassConst) members() []memberOfClass {
+	members := make([]memberOfClass, 0, len(c.Consts))
+	for _, m := range c.Consts {
+		members = append(members, memberOfClass{m.Const, m.Const.Name, m.class})
+	}
+	return members
 }
 
 // ReduceStatic reduces the inherited props using the static rules
 func (c InheritedClassConst) ReduceStatic(currentClass string, access MemberAccess) []ClassConstWithScope {
 	results := []ClassConstWithScope{}
-	duplicatedNames := make(map[string]struct{})
-	for _, cc := range c.Consts {
-		if _, ok := duplicatedNames[cc.Const.Name]; ok {
-			continue
-		}
-		if IsInheritedStatic(currentClass, access, c.RelationMap, cc.Const) {
-			results = append(results, cc)
-			duplicatedNames[cc.Const.Name] = struct{}{}
-		}
+	for _, i := range c.query.accessibleMembers(currentClass, access, c.members(), true) {
+		results = append(results, c.Consts[i])
 	}
 	return results
 }
@@ -649,7 +644,10 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
+	classConsts.query = q
 	classConstsFromInterfaces := NewInheritedClassConst(nil, searchedFQNs)
 	for len(classes) > 0 {
 		var class *Class
@@ -660,10 +658,9 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 		}
 		searchedFQNs[scope] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(class, q.GetClassConsts(scope, name))...)
+			classConstWithScopeFromConsts(class, scope, q.GetClassConsts(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
-				classConsts.RelationMap.Relate(class.Name.GetFQN(), class.Extends.GetFQN())
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
 			}
 		}
@@ -672,13 +669,14 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 				continue
 			}
 			for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
-				classConsts.RelationMap.Relate(class.Name.GetFQN(), intf.Name.GetFQN())
 				classConstsFromInterfaces.Merge(q.GetInterfaceClassConsts(intf, name, classConstsFromInterfaces.SearchedFQNs))
 			}
 		}
 	}
 	classConsts.Merge(classConstsFromInterfaces)
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -696,7 +694,10 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 			return cc
 		}
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
+	classConsts.query = q
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
 		scope := intf.Name.GetFQN()
@@ -705,20 +706,21 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 		}
 		searchedFQNs[scope] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(intf, q.GetClassConsts(scope, name))...)
+			classConstWithScopeFromConsts(intf, scope, q.GetClassConsts(scope, name))...)
 		for _, extend := range intf.Extends {
 			if extend.IsEmpty() {
 				continue
 			}
 			for _, intf := range q.GetInterfaces(extend.GetFQN()) {
-				classConsts.RelationMap.Relate(scope, intf.Name.GetFQN())
 				if _, ok := searchedFQNs[intf.Name.GetFQN()]; !ok {
 					interfaces = append(interfaces, intf)
 				}
 			}
 		}
 	}
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -729,7 +731,7 @@ func (q *Query) SearchClassClassConsts(class *Class, keyword string, searchedFQN
 	}
 	classConsts := q.GetClassClassConsts(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := classConsts.Consts[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -749,7 +751,7 @@ func (q *Query) SearchInterfaceClassConsts(intf *Interface, keyword string, sear
 	}
 	classConsts := q.GetInterfaceClassConsts(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := classConsts.Consts[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -767,12 +769,13 @@ type PropWithScope struct {
 	Prop  *Property
 	Scope Symbol
 	Score int
+	class string
 }
 
-func propWithScopeFromProps(scope Symbol, props []*Property) []PropWithScope {
+func propWithScopeFromProps(scope Symbol, class string, props []*Property) []PropWithScope {
 	results := []PropWithScope{}
 	for _, prop := range props {
-		results = append(results, PropWithScope{prop, scope, 0})
+		results = append(results, PropWithScope{prop, scope, 0, class})
 	}
 	return results
 }
@@ -800,7 +803,7 @@ func MergePropWithScope(items ...[]PropWithScope) []PropWithScope {
 // InheritedProps contains information for props include inheried ones
 type InheritedProps struct {
 	Props        []PropWithScope
-	RelationMap  RelationMap
+	query        *Query
 	SearchedFQNs map[string]struct{}
 }
 
@@ -813,7 +816,6 @@ func EmptyInheritedProps() InheritedProps {
 func NewInheritedProps(props []PropWithScope, searchedFQNs map[string]struct{}) InheritedProps {
 	return InheritedProps{
 		Props:        props,
-		RelationMap:  RelationMap{},
 		SearchedFQNs: searchedFQNs,
 	}
 }
@@ -824,21 +826,24 @@ func (p *InheritedProps) Merge(other InheritedProps) {
 	for fqn := range other.SearchedFQNs {
 		p.SearchedFQNs[fqn] = struct{}{}
 	}
-	p.RelationMap.Merge(other.RelationMap)
+	if p.query == nil {
+		p.query = other.query
+	}
+}
+
+func (p InheritedProps) members() []memberOfClass {
+	members := make([]memberOfClass, 0, len(p.Props))
+	for _, m := range p.Props {
+		members = append(members, memberOfClass{m.Prop, m.Prop.Name, m.class})
+	}
+	return members
 }
 
 // ReduceStatic reduces properties using the static rules
 func (p InheritedProps) ReduceStatic(currentClass string, access MemberAccess) []PropWithScope {
 	results := []PropWithScope{}
-	duplicatedNames := make(map[string]struct{})
-	for _, ps := range p.Props {
-		if _, ok := duplicatedNames[ps.Prop.Name]; ok {
-			continue
-		}
-		if IsInheritedStatic(currentClass, access, p.RelationMap, ps.Prop) {
-			results = append(results, ps)
-			duplicatedNames[ps.Prop.Name] = struct{}{}
-		}
+	for _, i := range p.query.accessibleMembers(currentClass, access, p.members(), true) {
+		results = append(results, p.Props[i])
 	}
 	return results
 }
@@ -846,18 +851,12 @@ func (p InheritedProps) ReduceStatic(currentClass string, access MemberAccess) [
 // ReduceAccess reduces propties using the access rules
 func (p InheritedProps) ReduceAccess(currentClass string, access MemberAccess) []PropWithScope {
 	results := []PropWithScope{}
-	duplicatedNames := make(map[string]struct{})
-	for _, ps := range p.Props {
-		if _, ok := duplicatedNames[ps.Prop.Name]; ok {
-			continue
-		}
-		if IsInherited(currentClass, access, p.RelationMap, ps.Prop) {
-			if ps.Prop.isStatic {
-				ps.Score -= staticInAccessCost
-			}
-			results = append(results, ps)
-			duplicatedNames[ps.Prop.Name] = struct{}{}
+	for _, i := range p.query.accessibleMembers(currentClass, access, p.members(), false) {
+		member := p.Props[i]
+		if member.Prop.isStatic {
+			member.Score -= staticInAccessCost
 		}
+		results = append(results, member)
 	}
 	return results
 }
@@ -899,7 +898,10 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 			return p
 		}
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
+	props.query = q
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
 		class, classes = classes[0], classes[1:]
@@ -908,7 +910,16 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 			continue
 		}
 		searchedFQNs[scope] = struct{}{}
-		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(scope, name))...)
+		props.Props = append(props.Props, propWithScopeFromProps(class, scope, q.GetProps(scope, name))...)
+		for _, use := range class.Use {
+			if use.IsEmpty() {
+				continue
+			}
+			for _, trait := range q.GetTraits(use.GetFQN()) {
+				props.Props = append(props.Props,
+					propWithScopeFromProps(trait, scope, q.GetProps(trait.Name.GetFQN(), name))...)
+			}
+		}
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
@@ -924,7 +935,9 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		}
 	}
 	props.Merge(propsFromInterfaces)
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
@@ -942,7 +955,10 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			return p
 		}
 	}
+	// What is found already is left out
+	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
+	props.query = q
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
 		scope := intf.Name.GetFQN()
@@ -950,7 +966,7 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			continue
 		}
 		searchedFQNs[scope] = struct{}{}
-		props.Props = append(props.Props, propWithScopeFromProps(intf, q.GetProps(scope, name))...)
+		props.Props = append(props.Props, propWithScopeFromProps(intf, scope, q.GetProps(scope, name))...)
 		for _, extend := range intf.Extends {
 			if extend.IsEmpty() {
 				continue
@@ -962,7 +978,9 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			}
 		}
 	}
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
@@ -973,7 +991,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	}
 	props := q.GetClassProps(class, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := props.Props[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
@@ -993,7 +1011,7 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	}
 	props := q.GetInterfaceProps(intf, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := props.Props[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-- 
2.43.0


From 2318b7b17c29a40a0564f39fd75b3253b61dfcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:48 +0000
Subject: [PATCH 38/70] fix: names of classes, functions and constants resolve
 as in PHP

---
 analysis/functionCall.go |   4 +-
 analysis/importTable.go  | 146 +++++++++++++++++++++------------------
 analysis/use.go          |  10 ++-
 3 files changed, 89 insertions(+), 71 deletions(-)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 554803e..c7797a5 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -79,7 +79,7 @@ func (s *FunctionCall) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	s.hasResolved = true
 	typeString := NewTypeString(s.Name)
-	functions := q.GetFunctions(document.currImportTable().GetFunctionReferenceFQN(ctx.query, typeString))
+	functions := q.GetFunctions(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, typeString))
 	for _, function := range functions {
 		s.Type.merge(function.returnTypes)
 	}
@@ -94,7 +94,7 @@ func (s *FunctionCall) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	typeString := NewTypeString(s.Name)
 	q := ctx.query
 	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
+	typeString.SetFQN(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
diff --git a/analysis/importTable.go b/analysis/importTable.go
index dfcd52c..7d4047b 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -73,92 +73,102 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 	i.namespace = namespace
 }
 
-func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	if item, ok := i.classes[firstPart]; ok {
-		fqn := "\\" + item.name
-		if len(parts) > 0 {
-			fqn += "\\" + strings.Join(parts, "\\")
+// lookUpImport finds what an alias stands for. The letter case of an alias of a class,
+// or of a function, does not matter.
+func lookUpImport(items map[string]*importItem, alias string) (*importItem, bool) {
+	if item, ok := items[alias]; ok {
+		return item, true
+	}
+	for name, item := range items {
+		if strings.EqualFold(name, alias) {
+			return item, true
 		}
-		name.SetFQN(fqn)
-		i.useClass(firstPart)
-	} else {
-		name.SetNamespace(i.GetNamespace())
 	}
-	return name.GetFQN()
+	return nil, false
 }
 
-func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+// importedFQN replaces the first part of a name with what it is an alias of. items are the
+// imports for names of one part, the first part of others is an alias of a class or a namespace.
+func (i ImportTable) importedFQN(name TypeString, lookUp func(string) (*importItem, bool)) (string, bool) {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return "", false
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
 	if len(parts) > 0 {
-		aliasTable = i.classes
+		lookUp = i.lookUpClass
 	}
+	item, ok := lookUp(firstPart)
+	if !ok {
+		return "", false
+	}
+	return "\\" + strings.Join(append([]string{item.name}, parts...), "\\"), true
+}
+
+func (i ImportTable) lookUpClass(alias string) (*importItem, bool) {
+	return lookUpImport(i.classes, alias)
+}
+
+func (i ImportTable) lookUpFunction(alias string) (*importItem, bool) {
+	return lookUpImport(i.functions, alias)
+}
 
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
+func (i ImportTable) lookUpConst(alias string) (*importItem, bool) {
+	item, ok := i.constants[alias]
+	return item, ok
+}
+
+// possibleFQNs are what the name of a function or a constant can mean, in order: a name of
+// one part is looked for in the namespace and then globally.
+func (i ImportTable) possibleFQNs(name TypeString, lookUp func(string) (*importItem, bool)) []string {
+	if fqn, ok := i.importedFQN(name, lookUp); ok {
+		return []string{fqn}
 	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
+	original := name.GetFQN()
+	name.SetNamespace(i.GetNamespace())
+	results := []string{name.GetFQN()}
+	if global := "\\" + original; !strings.Contains(original, "\\") && global != name.GetFQN() {
+		results = append(results, global)
 	}
-	functions := q.GetFunctions(fqn)
-	if len(functions) > 0 {
+	return results
+}
+
+func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+	if fqn, ok := i.importedFQN(name, i.lookUpClass); ok {
+		firstPart, _ := name.GetFirstAndRestParts()
+		i.useClass(firstPart)
 		return fqn
 	}
 	name.SetNamespace(i.GetNamespace())
 	return name.GetFQN()
 }
 
-func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
-	results := []string{}
-	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, "\\"+item.name)
-		return results
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	results = append(results, fqn)
-	name.SetNamespace(i.GetNamespace())
-	if name.GetFQN() != fqn {
-		results = append(results, name.GetFQN())
+func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+	possibleFQNs := i.FunctionPossibleFQNs(name)
+	for _, fqn := range possibleFQNs {
+		if len(q.GetFunctions(fqn)) > 0 {
+			return fqn
+		}
 	}
-	return results
+	return possibleFQNs[0]
 }
 
-func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.constants
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
+func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
+	return i.possibleFQNs(name, i.lookUpFunction)
+}
 
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	constants := q.GetConsts(fqn)
-	if len(constants) > 0 {
-		return fqn
-	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	defines := q.GetDefines(fqn)
-	if len(defines) > 0 {
-		return fqn
+func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
+	possibleFQNs := i.possibleFQNs(name, i.lookUpConst)
+	for _, fqn := range possibleFQNs {
+		if len(q.GetConsts(fqn)) > 0 {
+			return fqn
+		}
+		// TODO: Defines do not have implicit namespace except
+		// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
+		if len(q.GetDefines(fqn)) > 0 {
+			return fqn
+		}
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	return possibleFQNs[0]
 }
 
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
@@ -222,19 +232,19 @@ func (i ImportTable) ResolveScopeNamespace(word string) string {
 }
 
 func (i *ImportTable) useClass(name string) {
-	if item, ok := i.classes[name]; ok {
+	if item, ok := i.lookUpClass(name); ok {
 		item.isUsed = true
 	}
 }
 
 func (i *ImportTable) useFunction(name string) {
-	if item, ok := i.functions[name]; ok {
+	if item, ok := i.lookUpFunction(name); ok {
 		item.isUsed = true
 	}
 }
 
 func (i *ImportTable) useConstant(name string) {
-	if item, ok := i.constants[name]; ok {
+	if item, ok := i.lookUpConst(name); ok {
 		item.isUsed = true
 	}
 }
diff --git a/analysis/use.go b/analysis/use.go
index e1948eb..f27a2e8 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -95,6 +95,7 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 
 				name := ""
 				alias := ""
+				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
 					if p, ok = child.(*phrase.Phrase); ok {
@@ -104,11 +105,18 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 						case phrase.NamespaceAliasingClause:
 							alias = getAliasFromNode(document, p)
 						}
+					} else if t, ok := child.(*lexer.Token); ok {
+						switch t.Type {
+						case lexer.Function:
+							clauseType = UseFunction
+						case lexer.Const:
+							clauseType = UseConst
+						}
 					}
 					child = traverser.Advance()
 				}
 				name = prefix + "\\" + name
-				addUseToImportTable(document, useType, alias, name, document.NodeRange(p))
+				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
-- 
2.43.0


From ba848defb42469dbc06ffaf0795a6e3c7a36a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 39/70] fix: messages without params, a second initialize and
 an early initialized do no harm

---
 internal/lsp/general.go         | 9 ++++++++-
 internal/lsp/protocol/server.go | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 704e8e9..c3446f0 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -28,6 +28,7 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 	s.stateMu.Lock()
 	state := s.state
 	if state >= serverInitializing {
+		s.stateMu.Unlock()
 		return nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "already initialised")
 	}
 	s.state = serverInitializing
@@ -93,8 +94,14 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 
 func (s *Server) initialized(ctx context.Context, params *protocol.InitializedParams) error {
 	s.stateMu.Lock()
-	s.state = serverInitialized
+	state := s.state
+	if state == serverInitializing {
+		s.state = serverInitialized
+	}
 	s.stateMu.Unlock()
+	if state != serverInitializing {
+		return jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "not expected to be initialised")
+	}
 	version := protocol.GetVersion(ctx)
 	log.Println("phpintel server initialised. Version: " + version)
 	for _, folder := range s.pendingFolders {
diff --git a/internal/lsp/protocol/server.go b/internal/lsp/protocol/server.go
index febff16..8179ea8 100644
--- a/internal/lsp/protocol/server.go
+++ b/internal/lsp/protocol/server.go
@@ -72,6 +72,11 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	handleError := func(err error) {
 		log.Printf("Server.Deliver %s: %v", r.Method, err)
 	}
+	if r.Params == nil && r.Method != "shutdown" {
+		// params may be omitted
+		params := json.RawMessage("null")
+		r.Params = &params
+	}
 	switch r.Method {
 	case "workspace/didChangeWorkspaceFolders": // notif
 		var params DidChangeWorkspaceFoldersParams
-- 
2.43.0


From cbcd842ecd87e026176a63c9f19f451d1f86797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 40/70] fix: signature help follows the cursor at commas,
 parentheses and within anonymous classes

---
 analysis/document.go      | 4 +++-
 internal/lsp/signature.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4db7283..957bd84 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -701,7 +701,9 @@ func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*Argume
 	t.traverseDocument(s, func(t *traverser, s Symbol, spine []Symbol) {
 		relativePos := protocol.IsInRange(pos, s.GetLocation().Range)
 		if relativePos == 0 {
-			if args, ok := s.(*ArgumentList); ok {
+			// Before the open parenthesis is still outside of the arguments
+			if args, ok := s.(*ArgumentList); ok && protocol.ComparePos(pos, args.GetLocation().Range.Start) > 0 {
+				hasParamsResolvable = nil
 				if len(spine) >= 3 {
 					if _, ok := spine[len(spine)-2].(*Class); ok {
 						if classTypeDesignator, ok2 := spine[len(spine)-3].(*ClassTypeDesignator); ok2 {
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index e979afa..7e4b067 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -50,7 +50,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 
 	ranges := argumentList.GetRanges()
 	signatureHelp.ActiveParameter = sort.Search(len(ranges), func(i int) bool {
-		return protocol.IsInRange(pos, ranges[i]) <= 0
+		return protocol.ComparePos(pos, ranges[i].End) <= 0
 	})
 
 	return signatureHelp, nil
-- 
2.43.0


From c2f2d7cf9261fc42cb80c5dc4ddbb450507d72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:41 +0000
Subject: [PATCH 41/70] fix: rename edits every occurrence of a variable, in
 expressions and statements of every kind

---
 analysis/anonymousFunction.go    |  35 +++++++-
 analysis/assignment.go           |  41 +++++-----
 analysis/binaryExpression.go     |  17 ++--
 analysis/classAccess.go          |  18 ++++-
 analysis/classTypeDesignator.go  |   6 +-
 analysis/document.go             |  32 ++++++++
 analysis/expression.go           |  10 +++
 analysis/foreach.go              |  25 ++++--
 analysis/functionCall.go         |   4 +-
 analysis/memberAccess.go         |   7 +-
 analysis/methodAccess.go         |   2 +-
 analysis/propertyAccess.go       |   2 +-
 analysis/scopedMethodAccess.go   |   3 +
 analysis/scopedPropertyAccess.go |   1 +
 analysis/symbolBlock.go          |  28 ++++++-
 analysis/try.go                  |  13 +++
 analysis/variable.go             | 132 +++++++++++++++++++++++++++++--
 internal/lsp/reference.go        |  29 +++----
 18 files changed, 333 insertions(+), 72 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 2189a13..58e6fd0 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"log"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -90,8 +91,10 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 					child = traverser.Advance()
 					for child != nil {
 						if p, ok := child.(*phrase.Phrase); ok {
-							if p.Type == phrase.AnonymousFunctionUseVariable {
-								variable, shouldAdd := newVariable(a, document, p, true)
+							name := util.LastToken(p)
+							if p.Type == phrase.AnonymousFunctionUseVariable && name != nil && name.Type == lexer.VariableName {
+								variable, shouldAdd := newVariable(a, document, name, true)
+								variableTable.sharedNames[variable.Name] = true
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
@@ -127,3 +130,31 @@ func (s *AnonymousFunction) addChild(child Symbol) {
 func (s *AnonymousFunction) GetChildren() []Symbol {
 	return s.children
 }
+
+// newArrowFunction analyses an arrow function, whose variables are those of
+// the enclosing scope except its parameters
+func newArrowFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	arrowFunc := &AnonymousFunction{
+		location: document.GetNodeLocation(node),
+	}
+	outer := document.getCurrentVariableTable()
+	document.pushVariableTable(node)
+	document.pushBlock(arrowFunc)
+	variableTable := document.getCurrentVariableTable()
+	variableTable.outer = outer
+	variableTable.params = map[string]bool{}
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ArrowFunctionHeader {
+			arrowFunc.analyseHeader(a, document, p, variableTable, outer)
+			for _, param := range arrowFunc.Params {
+				variableTable.params[param.Name] = true
+				variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
+			}
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	document.popVariableTable()
+	document.popBlock()
+	return arrowFunc
+}
diff --git a/analysis/assignment.go b/analysis/assignment.go
index 24f8779..c97773a 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -13,8 +13,8 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	firstChild := traverser.Advance()
 	haveProcessed := false
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		if p.Type == phrase.SimpleVariable {
-			analyseVariableAssignment(a, document, p, traverser.Clone(), node)
+		if p.Type == phrase.SimpleVariable && variableNamePhrase(p) == nil {
+			analyseVariableAssignment(a, document, p, node)
 			haveProcessed = true
 		}
 		if p.Type == phrase.PropertyAccessExpression {
@@ -36,20 +36,24 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	return nil, false
 }
 
-func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, traverser *util.Traverser, parent *phrase.Phrase) {
-	traverser.Advance()
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.CompoundAssignmentExpression {
-		traverser.SkipToken(lexer.DotEquals)
-	} else {
-		traverser.SkipToken(lexer.Equals)
+// assignedValue returns the right hand side of an assignment, nil if there is
+// none
+func assignedValue(node *phrase.Phrase) phrase.AstNode {
+	last := len(node.Children) - 1
+	for ; last > 0; last-- {
+		token, ok := node.Children[last].(*lexer.Token)
+		if !ok || token.Type != lexer.Whitespace && token.Type != lexer.Comment {
+			break
+		}
 	}
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.ByRefAssignmentExpression {
-		traverser.SkipToken(lexer.Ampersand)
-		traverser.SkipToken(lexer.Whitespace)
+	if last < 2 {
+		return nil
 	}
-	rhs := traverser.Advance()
+	return node.Children[last]
+}
+
+func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, parent *phrase.Phrase) {
+	rhs := assignedValue(parent)
 	phpDoc := document.getValidPhpDoc(document.GetNodeLocation(lhs))
 	variable := newVariableWithoutPushing(document, lhs)
 	if phpDoc != nil {
@@ -93,15 +97,14 @@ func processPropertyAccessAssignment(a analyser, document *Document, node *phras
 	if p, ok := lhs.(*phrase.Phrase); ok {
 		lhsExpr = scanForExpression(a, document, p)
 	}
-	parentTraverser.SkipToken(lexer.Whitespace)
-	parentTraverser.SkipToken(lexer.Equals)
-	parentTraverser.SkipToken(lexer.Whitespace)
-	rhs := parentTraverser.Advance()
+	rhs := assignedValue(parent)
 	if rhsP, ok := rhs.(*phrase.Phrase); ok {
 		rhsExpr = scanForExpression(a, document, rhsP)
 	}
 	if rhsExpr == nil {
-		scanNode(a, document, rhs)
+		if p, ok := rhs.(*phrase.Phrase); !ok || nodeTypeToExprConstructor[p.Type] == nil {
+			scanNode(a, document, rhs)
+		}
 		return
 	}
 	if p, ok1 := firstChild.(*phrase.Phrase); ok1 && p.Type == phrase.SimpleVariable &&
diff --git a/analysis/binaryExpression.go b/analysis/binaryExpression.go
index 4c56cf5..e361b53 100644
--- a/analysis/binaryExpression.go
+++ b/analysis/binaryExpression.go
@@ -1,7 +1,6 @@
 package analysis
 
 import (
-	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
@@ -14,6 +13,8 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				return newClassAccess(a, document, p), true
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -24,14 +25,16 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 func processInstanceOfExpression(a analyser, document *Document, node *phrase.Phrase) (HasTypes, bool) {
 	traverser := util.NewTraverser(node)
 	lhs := traverser.Advance()
-	traverser.SkipToken(lexer.Whitespace)
-	traverser.SkipToken(lexer.InstanceOf)
-	traverser.SkipToken(lexer.Whitespace)
-	rhs := traverser.Advance()
+	var rhs phrase.AstNode
+	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
+		if p, ok := child.(*phrase.Phrase); ok {
+			rhs = p
+		}
+	}
 	if lhs, ok1 := lhs.(*phrase.Phrase); ok1 {
 		if rhs, ok2 := rhs.(*phrase.Phrase); ok2 {
-			lhsExpr := scanForExpression(a, document, lhs)
-			rhsExpr := scanForExpression(a, document, rhs)
+			lhsExpr := scanOperand(a, document, lhs)
+			rhsExpr := scanOperand(a, document, rhs)
 			if v, ok := lhsExpr.(*Variable); ok && rhsExpr != nil {
 				v.Type.merge(rhsExpr.GetTypes())
 			}
diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index cfb2753..fbc67d2 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 )
@@ -34,8 +35,8 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 			typeString := transformQualifiedName(node, document)
 			typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 			types.add(typeString)
-		case phrase.SimpleVariable:
-			expr := scanForExpression(a, document, node)
+		default:
+			expr := scanOperand(a, document, node)
 			if expr != nil {
 				classAccess.Scope = expr
 			}
@@ -53,6 +54,19 @@ func analyseMemberName(document *Document, node *phrase.Phrase) string {
 	return ""
 }
 
+// analyseVariableMemberName analyses what a method is named by when it is not
+// an identifier
+func analyseVariableMemberName(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if token, ok := child.(*lexer.Token); ok && token.Type == lexer.VariableName {
+			variable, _ := newVariable(a, document, token, false)
+			document.addSymbol(variable)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+}
+
 func (s *ClassAccess) GetLocation() protocol.Location {
 	return s.Location
 }
diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index fc1e6ba..bc86c5d 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -55,10 +55,8 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 			case phrase.RelativeScope:
 				relativeScope := newRelativeScope(document, s.Location)
 				s.Type.merge(relativeScope.Types)
-			case phrase.SimpleVariable:
-				if variable, ok := newVariable(a, document, p, false); ok {
-					document.addSymbol(variable)
-				}
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/document.go b/analysis/document.go
index 957bd84..9ffa9a8 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -513,6 +513,38 @@ func (s *Document) GetVariableTableAt(pos protocol.Position) *VariableTable {
 	return traverseAndFind(lastFoundVarTable)
 }
 
+// VariableRangesAt returns where the variable at the position occurs
+func (s *Document) VariableRangesAt(pos protocol.Position) []protocol.Range {
+	s.Load()
+	tables := []*VariableTable{s.variableTables[0]}
+	for i := 0; i < len(tables); i++ {
+		for _, child := range tables[i].children {
+			if protocol.IsInRange(pos, child.locationRange) == 0 {
+				tables = append(tables, child)
+				break
+			}
+		}
+	}
+	last := len(tables) - 1
+	name := tables[last].nameAt(pos)
+	if name == "" {
+		return nil
+	}
+	for last > 0 && tables[last].isShared(name) {
+		last--
+	}
+	found := map[protocol.Range]bool{}
+	tables[last].collectRanges(name, found)
+	ranges := make([]protocol.Range, 0, len(found))
+	for r := range found {
+		ranges = append(ranges, r)
+	}
+	sort.Slice(ranges, func(i, j int) bool {
+		return protocol.ComparePos(ranges[i].Start, ranges[j].Start) < 0
+	})
+	return ranges
+}
+
 func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Position, isDeclaration bool) {
 	variableTable := s.getCurrentVariableTable()
 	currentVariable := variableTable.get(variable.Name, pos)
diff --git a/analysis/expression.go b/analysis/expression.go
index d1855f5..3e29447 100644
--- a/analysis/expression.go
+++ b/analysis/expression.go
@@ -104,6 +104,16 @@ func scanForExpression(a analyser, document *Document, node *phrase.Phrase) HasT
 	return expression
 }
 
+// scanOperand analyses any part of an expression and returns what has its
+// types, nil if it has none
+func scanOperand(a analyser, document *Document, node *phrase.Phrase) HasTypes {
+	if _, ok := nodeTypeToExprConstructor[node.Type]; ok {
+		return scanForExpression(a, document, node)
+	}
+	scanNode(a, document, node)
+	return nil
+}
+
 type derivedExpression struct {
 	Expression
 	children    []Symbol
diff --git a/analysis/foreach.go b/analysis/foreach.go
index 593d554..f63545b 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -20,10 +20,12 @@ func analyseForeachStatement(a analyser, document *Document, node *phrase.Phrase
 			switch p.Type {
 			case phrase.ForeachCollection:
 				f = newForeachCollection(a, document, p)
+			case phrase.ForeachKey:
+				analyseForeachKey(a, document, p)
 			case phrase.ForeachValue:
 				analyseForeachValue(a, document, f, p)
-			case phrase.CompoundStatement, phrase.StatementList:
-				scanForChildren(a, document, p)
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -39,7 +41,7 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
-			expr := scanForExpression(a, document, p)
+			expr := scanOperand(a, document, p)
 			if expr != nil {
 				f.setExpression(expr)
 			}
@@ -49,17 +51,30 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	return f
 }
 
+func analyseForeachKey(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable && variableNamePhrase(p) == nil {
+			v, _ := newVariable(a, document, p, true)
+			document.addSymbol(v)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+}
+
 func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, node *phrase.Phrase) {
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
-			case phrase.SimpleVariable:
+			switch {
+			case p.Type == phrase.SimpleVariable && variableNamePhrase(p) == nil:
 				if v, shouldAdd := newVariable(a, document, p, true); shouldAdd {
 					v.setExpression(f)
 					document.addSymbol(v)
 				}
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index c7797a5..5e1ca4b 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -48,8 +48,8 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	child := traverser.Advance()
 	firstChild := child
 	if firstChild != nil {
-		if p, ok := firstChild.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
-			scanForExpression(a, document, p)
+		if p, ok := firstChild.(*phrase.Phrase); ok {
+			scanOperand(a, document, p)
 		}
 		functionCall.Location = document.GetNodeLocation(firstChild)
 		functionCall.Name = document.GetNodeText(firstChild)
diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 935f5a4..f968319 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -27,12 +27,9 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 			if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Name {
 				name = document.getTokenText(t)
 			}
-			if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
+			if p, ok := child.(*phrase.Phrase); ok {
 				name = document.getPhraseText(p)
-				v, shouldAdd := newVariable(a, document, p, false)
-				if shouldAdd {
-					document.addSymbol(v)
-				}
+				scanNode(a, document, p)
 				return name, location
 			}
 		}
diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index f093da5..d432e7f 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -23,7 +23,7 @@ func newMethodAccess(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			methodAccess.Scope = expression
 		}
diff --git a/analysis/propertyAccess.go b/analysis/propertyAccess.go
index 05fc09b..9979663 100644
--- a/analysis/propertyAccess.go
+++ b/analysis/propertyAccess.go
@@ -24,7 +24,7 @@ func newPropertyAccess(a analyser, document *Document, node *phrase.Phrase) (Has
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			propertyAccess.Scope = expression
 		}
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index f2c77c9..2afc6e7 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -36,6 +36,9 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 		methodAccess.Name = analyseMemberName(document, p)
 	}
 	document.addSymbol(methodAccess)
+	if p, ok := thirdChild.(*phrase.Phrase); ok {
+		analyseVariableMemberName(a, document, p)
+	}
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ArgumentExpressionList {
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index fa4ac7e..6a2e2d3 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -35,6 +35,7 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 	propertyAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		propertyAccess.Name = analyseMemberName(document, p)
+		scanNode(a, document, p)
 	}
 	return propertyAccess, true
 }
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 74f4d3d..a711b5a 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -34,7 +34,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.ExpressionList,
 	phrase.TryStatement,
 	phrase.CatchClauseList,
-	phrase.CatchClause,
 	phrase.ReturnStatement,
 	phrase.ArrayCreationExpression,
 	phrase.ArrayInitialiserList,
@@ -72,9 +71,30 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.DoStatement,
 	phrase.DoubleQuotedStringLiteral,
 	phrase.EncapsulatedVariableList,
-	phrase.EncapsulatedVariable,
 	phrase.RequireOnceExpression,
 	phrase.ErrorControlExpression,
+	phrase.BitwiseExpression,
+	phrase.CoalesceExpression,
+	phrase.DeclareStatement,
+	phrase.ExitIntrinsic,
+	phrase.ExponentiationExpression,
+	phrase.FinallyClause,
+	phrase.ForExpressionGroup,
+	phrase.FunctionStaticDeclaration,
+	phrase.FunctionStaticInitialiser,
+	phrase.HeredocStringLiteral,
+	phrase.IncludeOnceExpression,
+	phrase.ListIntrinsic,
+	phrase.MemberName,
+	phrase.PrintIntrinsic,
+	phrase.RequireExpression,
+	phrase.ScopedMemberName,
+	phrase.ShellCommandExpression,
+	phrase.ShiftExpression,
+	phrase.StaticVariableDeclarationList,
+	phrase.VariadicUnpacking,
+	phrase.YieldExpression,
+	phrase.YieldFromExpression,
 })
 
 var /*const */ tokenToSymbolConstructor = map[lexer.TokenType]symbolConstructorForToken{
@@ -101,7 +121,11 @@ func init() {
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
+		phrase.ArrowFunctionCreationExpression:     newArrowFunction,
+		phrase.CatchClause:                         processCatchClause,
 		phrase.CatchNameList:                       processCatchNameList,
+		phrase.EncapsulatedVariable:                processEncapsulatedVariable,
+		phrase.StaticVariableDeclaration:           processStaticVariableDeclaration,
 	}
 }
 
diff --git a/analysis/try.go b/analysis/try.go
index b75290a..951ddff 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
@@ -18,3 +19,15 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) S
 	}
 	return nil
 }
+
+func processCatchClause(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for _, child := range node.Children {
+		if token, ok := child.(*lexer.Token); ok && token.Type == lexer.VariableName {
+			variable, _ := newVariable(a, document, token, true)
+			document.addSymbol(variable)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
diff --git a/analysis/variable.go b/analysis/variable.go
index 2dbac7b..b625262 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -3,8 +3,10 @@ package analysis
 import (
 	"sort"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 // Variable represents a reference to the variable
@@ -16,16 +18,32 @@ type Variable struct {
 }
 
 func newVariableExpression(a analyser, document *Document, node *phrase.Phrase) (HasTypes, bool) {
+	if p := variableNamePhrase(node); p != nil {
+		// The name of the variable is the value of an expression
+		scanNode(a, document, p)
+		return nil, false
+	}
 	return newVariable(a, document, node, false)
 }
 
-func newVariable(a analyser, document *Document, node *phrase.Phrase, isDeclaration bool) (*Variable, bool) {
+// variableNamePhrase returns the expression that names a variable variable,
+// nil if the node is not one
+func variableNamePhrase(node *phrase.Phrase) *phrase.Phrase {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			return p
+		}
+	}
+	return nil
+}
+
+func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclaration bool) (*Variable, bool) {
 	variable := newVariableWithoutPushing(document, node)
 	document.pushVariable(a, variable, variable.GetLocation().Range.End, isDeclaration)
 	return variable, true
 }
 
-func newVariableWithoutPushing(document *Document, node *phrase.Phrase) *Variable {
+func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
 			Name:     document.GetNodeText(node),
@@ -134,6 +152,12 @@ type VariableTable struct {
 	globalDeclares map[string]bool
 	level          int
 	children       []*VariableTable
+	// sharedNames are the variables that are also those of the enclosing scope
+	sharedNames map[string]bool
+	// The enclosing scope of an arrow function, whose variables are visible
+	// except those hidden by the parameters
+	outer  *VariableTable
+	params map[string]bool
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -142,10 +166,23 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 		variables:      map[string][]contextualVariable{},
 		globalDeclares: map[string]bool{},
 		level:          level,
+		sharedNames:    map[string]bool{},
 	}
 }
 
+// isShared returns true if the variable is also that of the enclosing scope
+func (vt *VariableTable) isShared(name string) bool {
+	if vt.outer != nil {
+		return !vt.params[name]
+	}
+	return vt.sharedNames[name]
+}
+
 func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Position, isDeclaration bool) {
+	if vt.outer != nil && vt.isShared(variable.Name) {
+		vt.outer.add(a, variable, start, isDeclaration)
+		return
+	}
 	currentVars := []contextualVariable{}
 	newCtxVar := newContextualVariable(variable, start, isDeclaration)
 	if !isDeclaration {
@@ -176,6 +213,9 @@ func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Posi
 }
 
 func (vt *VariableTable) get(name string, pos protocol.Position) *Variable {
+	if vt.outer != nil && vt.isShared(name) {
+		return vt.outer.get(name, pos)
+	}
 	if vars, ok := vt.variables[name]; ok {
 		index := sort.Search(len(vars), func(i int) bool {
 			return protocol.ComparePos(pos, vars[i].start) < 0
@@ -189,6 +229,9 @@ func (vt *VariableTable) get(name string, pos protocol.Position) *Variable {
 }
 
 func (vt *VariableTable) canReferenceGlobal(name string) bool {
+	if vt.outer != nil && vt.isShared(name) {
+		return vt.outer.level == 0 || vt.outer.canReferenceGlobal(name)
+	}
 	if _, ok := vt.globalDeclares[name]; ok {
 		return true
 	}
@@ -214,6 +257,13 @@ func (vt *VariableTable) GetVariables(pos protocol.Position) []*Variable {
 			results = append(results, vars[index].v)
 		}
 	}
+	if vt.outer != nil {
+		for _, v := range vt.outer.GetVariables(pos) {
+			if vt.isShared(v.Name) {
+				results = append(results, v)
+			}
+		}
+	}
 	return results
 }
 
@@ -233,10 +283,80 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 	return results
 }
 
-// GetContextualVariables returns the variable instances with the given name
-func (vt *VariableTable) GetContextualVariables(name string) []contextualVariable {
-	if ctxVars, ok := vt.variables[name]; ok {
-		return ctxVars
+// nameAt returns the name of the variable that is at the position, or that
+// ends there
+func (vt *VariableTable) nameAt(pos protocol.Position) string {
+	nameBefore := ""
+	for name, ctxVars := range vt.variables {
+		for _, ctxVar := range ctxVars {
+			varRange := ctxVar.v.GetLocation().Range
+			if protocol.IsInRange(pos, varRange) == 0 {
+				return name
+			}
+			if protocol.ComparePos(pos, varRange.End) == 0 {
+				nameBefore = name
+			}
+		}
+	}
+	if vt.outer != nil {
+		if name := vt.outer.nameAt(pos); name != "" && vt.isShared(name) {
+			return name
+		}
+	}
+	return nameBefore
+}
+
+// collectRanges adds the ranges of the variable in this scope and in those
+// that share it
+func (vt *VariableTable) collectRanges(name string, ranges map[protocol.Range]bool) {
+	for _, ctxVar := range vt.variables[name] {
+		ranges[ctxVar.v.GetLocation().Range] = true
+	}
+	for _, child := range vt.children {
+		if child.isShared(name) {
+			child.collectRanges(name, ranges)
+		}
+	}
+}
+
+func processStaticVariableDeclaration(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for _, child := range node.Children {
+		if token, ok := child.(*lexer.Token); ok && token.Type == lexer.VariableName {
+			variable, _ := newVariable(a, document, token, true)
+			document.addSymbol(variable)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
+
+// processEncapsulatedVariable analyses an expression between braces in a
+// string, in which a name at the start of ${...} is that of a variable
+func processEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	first := util.FirstToken(node)
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok || first.Type != lexer.DollarCurlyOpen {
+			scanNode(a, document, child)
+			continue
+		}
+		children := []phrase.AstNode{}
+		if p.Type == phrase.SubscriptExpression {
+			children = p.Children[1:]
+			p, ok = p.Children[0].(*phrase.Phrase)
+		}
+		if ok && (p.Type == phrase.ConstantAccessExpression || p.Type == phrase.QualifiedName) {
+			variable := newVariableWithoutPushing(document, p)
+			variable.Name = "$" + variable.Name
+			document.pushVariable(a, variable, variable.Location.Range.End, false)
+			document.addSymbol(variable)
+		} else if ok {
+			scanNode(a, document, p)
+		}
+		for _, child := range children {
+			scanNode(a, document, child)
+		}
 	}
 	return nil
 }
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index ec7ab58..b95199c 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -1,7 +1,9 @@
 package lsp
 
 import (
+	"bytes"
 	"context"
+	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
@@ -101,26 +103,21 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 		return nil, nil
 	}
 	doc.Lock()
-	doc.Load()
-	doc.Unlock()
-	pos := params.Position
-	symbol := doc.HasTypesAtPos(pos)
+	defer doc.Unlock()
 	result := &protocol.WorkspaceEdit{
 		Changes: make(map[string][]protocol.TextEdit),
 	}
-	switch v := symbol.(type) {
-	case *analysis.Variable:
-		varTable := doc.GetVariableTableAt(pos)
-		if varTable != nil {
-			var changes []protocol.TextEdit
-			for _, ctxVar := range varTable.GetContextualVariables(v.Name) {
-				changes = append(changes, protocol.TextEdit{
-					Range:   ctxVar.Variable().Location.Range,
-					NewText: params.NewName,
-				})
-			}
-			result.Changes[uri] = changes
+	text := doc.GetText()
+	name := strings.TrimPrefix(params.NewName, "$")
+	for _, r := range doc.VariableRangesAt(params.Position) {
+		newText := name
+		if bytes.HasPrefix(text[doc.OffsetAtPosition(r.Start):], []byte{'$'}) {
+			newText = "$" + name
 		}
+		result.Changes[uri] = append(result.Changes[uri], protocol.TextEdit{
+			Range:   r,
+			NewText: newText,
+		})
 	}
 	return result, nil
 }
-- 
2.43.0


From 67990eee4259bed9d69ba356e23db67675f52f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:08 +0000
Subject: [PATCH 42/70] fix: an import is used where a name in a type, a
 default or a constant value says so, and not by fully qualified names

---
 analysis/anonymousFunction.go |  2 ++
 analysis/const.go             |  1 +
 analysis/function.go          |  2 ++
 analysis/importTable.go       |  6 ++++++
 analysis/method.go            |  2 ++
 analysis/parameter.go         |  1 +
 analysis/property.go          |  2 ++
 analysis/symbolBlock.go       |  2 ++
 analysis/typeDeclaration.go   | 24 +++++++++++++++++++++++-
 analysis/use.go               | 25 +++++++++++++++++++------
 10 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 58e6fd0..658428c 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -56,6 +56,8 @@ func (s *AnonymousFunction) analyseHeader(a analyser, document *Document, node *
 			switch p.Type {
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				scanForChildren(a, document, p)
 			case phrase.AnonymousFunctionUseClause:
 				s.analyseUseClause(a, document, p, variableTable, prevVariableTable)
 			}
diff --git a/analysis/const.go b/analysis/const.go
index 84c0e88..1970a03 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -57,6 +57,7 @@ func newConst(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		} else if p, ok := child.(*phrase.Phrase); ok {
 			if hasEquals {
 				constant.Value += document.getPhraseText(p)
+				scanNode(a, document, p)
 			}
 		}
 
diff --git a/analysis/function.go b/analysis/function.go
index 787efb0..86616b0 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -75,6 +75,8 @@ func (s *Function) analyseHeader(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				scanForChildren(a, document, p)
 			case phrase.Identifier:
 				s.Name = NewTypeString(document.getPhraseText(p))
 			}
diff --git a/analysis/importTable.go b/analysis/importTable.go
index 7d4047b..c9acda9 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -250,6 +250,9 @@ func (i *ImportTable) useConstant(name string) {
 }
 
 func (i *ImportTable) useFunctionOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
@@ -259,6 +262,9 @@ func (i *ImportTable) useFunctionOrClass(name TypeString) {
 }
 
 func (i *ImportTable) useConstOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
diff --git a/analysis/method.go b/analysis/method.go
index c1b199b..75998e8 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -100,6 +100,8 @@ func (s *Method) analyseHeader(a analyser, document *Document, methodHeader *phr
 				s.VisibilityModifier, s.isStatic, s.ClassModifier = getMemberModifier(p)
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				scanForChildren(a, document, p)
 			case phrase.Identifier:
 				s.Name = document.getPhraseText(p)
 				s.refLocation = document.GetNodeLocation(p)
diff --git a/analysis/parameter.go b/analysis/parameter.go
index 3619e35..5c25b87 100644
--- a/analysis/parameter.go
+++ b/analysis/parameter.go
@@ -53,6 +53,7 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 				if hasEqual {
 					param.hasValue = true
 					param.Value += document.getPhraseText(p)
+					scanNode(a, document, p)
 				}
 			}
 		} else if token, ok := child.(*lexer.Token); ok {
diff --git a/analysis/property.go b/analysis/property.go
index 5cb871b..313e8a1 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -54,6 +54,8 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 			switch p.Type {
 			case phrase.MemberModifierList:
 				visibility, isStatic, _ = getMemberModifier(p)
+			case phrase.TypeDeclaration:
+				scanNode(a, document, p)
 			case phrase.PropertyElementList:
 				newPropertyList(a, document, p, visibility, isStatic)
 			}
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index a711b5a..11c445c 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -88,6 +88,7 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.MemberName,
 	phrase.PrintIntrinsic,
 	phrase.RequireExpression,
+	phrase.ReturnType,
 	phrase.ScopedMemberName,
 	phrase.ShellCommandExpression,
 	phrase.ShiftExpression,
@@ -126,6 +127,7 @@ func init() {
 		phrase.CatchNameList:                       processCatchNameList,
 		phrase.EncapsulatedVariable:                processEncapsulatedVariable,
 		phrase.StaticVariableDeclaration:           processStaticVariableDeclaration,
+		phrase.TypeDeclaration:                     processTypeDeclaration,
 	}
 }
 
diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 1c4d590..51ec2d3 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -11,13 +11,35 @@ type TypeDeclaration struct {
 	Expression
 }
 
+// processTypeDeclaration analyses a type which is told natively, e.g. of a returned value.
+func processTypeDeclaration(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	return newTypeDeclaration(document, node)
+}
+
+// typeName is the part of a type which is its name, without what makes it nullable.
+func typeName(node *phrase.Phrase) *phrase.Phrase {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			switch p.Type {
+			case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeQualifiedName:
+				return p
+			}
+		}
+	}
+	return node
+}
+
 func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaration {
+	isNative := node.Type == phrase.TypeDeclaration
+	if isNative {
+		node = typeName(node)
+	}
 	typeDeclaration := &TypeDeclaration{
 		Expression: Expression{
 			Location: document.GetNodeLocation(node),
 		},
 	}
-	if node.Type == phrase.TypeDeclaration {
+	if isNative {
 		typeString := transformQualifiedName(node, document)
 		typeDeclaration.Name = typeString.GetOriginal()
 		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
diff --git a/analysis/use.go b/analysis/use.go
index f27a2e8..53a4c36 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -84,8 +84,8 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 	traverser := util.NewTraverser(node)
 	child := traverser.Peek()
 	for child != nil {
-		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
+		if clause, ok := child.(*phrase.Phrase); ok {
+			switch clause.Type {
 			case phrase.NamespaceUseGroupClause:
 				var err error = nil
 				traverser, err = traverser.Descend()
@@ -98,10 +98,12 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
-					if p, ok = child.(*phrase.Phrase); ok {
+					if p, ok := child.(*phrase.Phrase); ok {
 						switch p.Type {
 						case phrase.NamespaceName:
-							name = document.getPhraseText(p)
+							if !isMissing(p) {
+								name = document.getPhraseText(p)
+							}
 						case phrase.NamespaceAliasingClause:
 							alias = getAliasFromNode(document, p)
 						}
@@ -115,8 +117,10 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 					}
 					child = traverser.Advance()
 				}
-				name = prefix + "\\" + name
-				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
+				if name != "" { // Otherwise it is what follows the last comma
+					name = prefix + "\\" + name
+					addUseToImportTable(document, clauseType, alias, name, document.NodeRange(clause))
+				}
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
@@ -129,6 +133,15 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 	}
 }
 
+// isMissing tells whether a phrase was expected where there was something else.
+func isMissing(node *phrase.Phrase) bool {
+	if len(node.Children) == 0 {
+		return true
+	}
+	_, ok := node.Children[0].(*phrase.ParseError)
+	return ok
+}
+
 func getAliasFromNode(document *Document, node *phrase.Phrase) string {
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
-- 
2.43.0


From bdf9a65452a88a2ac0c7ea11880eeb8ebd03d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:56 +0000
Subject: [PATCH 43/70] fix: variables read by loops, through references or by
 compact are used, destructured ones that are not read are unused

---
 analysis/anonymousFunction.go |   4 ++
 analysis/assignment.go        |   8 ++-
 analysis/foreach.go           |   6 +-
 analysis/functionCall.go      |  17 +++++
 analysis/globalVariable.go    |   1 +
 analysis/parameter.go         |   3 +
 analysis/symbolBlock.go       |   5 ++
 analysis/variable.go          | 126 ++++++++++++++++++++++++++++++----
 8 files changed, 156 insertions(+), 14 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 658428c..75b61a0 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -97,6 +97,10 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 							if p.Type == phrase.AnonymousFunctionUseVariable && name != nil && name.Type == lexer.VariableName {
 								variable, shouldAdd := newVariable(a, document, name, true)
 								variableTable.sharedNames[variable.Name] = true
+								if hasToken(p, lexer.Ampersand) {
+									variableTable.addReference(variable.Name)
+									prevVariableTable.addReference(variable.Name)
+								}
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
diff --git a/analysis/assignment.go b/analysis/assignment.go
index c97773a..fc74595 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -27,7 +27,7 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	}
 	if !haveProcessed {
 		if p, ok := firstChild.(*phrase.Phrase); ok {
-			scanNode(a, document, p)
+			scanTargets(a, document, p)
 		}
 		for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 			scanNode(a, document, child)
@@ -54,6 +54,12 @@ func assignedValue(node *phrase.Phrase) phrase.AstNode {
 
 func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, parent *phrase.Phrase) {
 	rhs := assignedValue(parent)
+	if parent.Type == phrase.ByRefAssignmentExpression {
+		addReference(document, lhs)
+		if rhs != nil {
+			addReference(document, rhs)
+		}
+	}
 	phpDoc := document.getValidPhpDoc(document.GetNodeLocation(lhs))
 	variable := newVariableWithoutPushing(document, lhs)
 	if phpDoc != nil {
diff --git a/analysis/foreach.go b/analysis/foreach.go
index f63545b..7fe5bae 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -67,6 +68,9 @@ func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, n
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
+			if hasToken(node, lexer.Ampersand) {
+				addReference(document, p)
+			}
 			switch {
 			case p.Type == phrase.SimpleVariable && variableNamePhrase(p) == nil:
 				if v, shouldAdd := newVariable(a, document, p, true); shouldAdd {
@@ -74,7 +78,7 @@ func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, n
 					document.addSymbol(v)
 				}
 			default:
-				scanNode(a, document, p)
+				scanTargets(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 5e1ca4b..c28c83c 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"strings"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -59,6 +60,10 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 		if p, ok := child.(*phrase.Phrase); ok {
 			if p.Type == phrase.ArgumentExpressionList {
 				scanNode(a, document, p)
+				switch strings.ToLower(functionCall.Name) {
+				case "compact", "\\compact":
+					useNames(document, p)
+				}
 				break
 			}
 		}
@@ -67,6 +72,18 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	return functionCall, false
 }
 
+// useNames marks the variables whose names are in the arguments of compact as used
+func useNames(document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			useNames(document, p)
+		} else if t, ok := child.(*lexer.Token); ok && t.Type == lexer.StringLiteral {
+			name := "$" + strings.Trim(document.getTokenText(t), "'\"")
+			document.getCurrentVariableTable().use(name, document.positionAt(t.Offset))
+		}
+	}
+}
+
 func (s *FunctionCall) GetLocation() protocol.Location {
 	return s.Location
 }
diff --git a/analysis/globalVariable.go b/analysis/globalVariable.go
index e4c401b..30e3d1e 100644
--- a/analysis/globalVariable.go
+++ b/analysis/globalVariable.go
@@ -54,6 +54,7 @@ func newGlobalVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	}
 	variableTable := document.getCurrentVariableTable()
 	variableTable.setReferenceGlobal(globalVariable.GetName())
+	variableTable.addReference(globalVariable.GetName())
 	document.pushVariable(a, globalVariable.toVariable(), globalVariable.location.Range.End, true)
 	return globalVariable
 }
diff --git a/analysis/parameter.go b/analysis/parameter.go
index 5c25b87..5684240 100644
--- a/analysis/parameter.go
+++ b/analysis/parameter.go
@@ -64,6 +64,9 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 			case lexer.VariableName:
 				param.Name = document.getTokenText(token)
 				param.varLocation = document.GetNodeLocation(token)
+				if hasToken(node, lexer.Ampersand) {
+					document.getCurrentVariableTable().references[param.Name] = true
+				}
 			default:
 				if hasEqual {
 					param.hasValue = true
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 11c445c..6301836 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -141,6 +141,11 @@ func scanNode(a analyser, document *Document, node phrase.AstNode) {
 			return
 		}
 
+		switch p.Type {
+		case phrase.WhileStatement, phrase.DoStatement, phrase.ForStatement, phrase.ForeachStatement:
+			variableTable := document.getCurrentVariableTable()
+			variableTable.loops = append(variableTable.loops, document.NodeRange(p))
+		}
 		if !isDefine(document, p) {
 			scanForExpression(a, document, p)
 		}
diff --git a/analysis/variable.go b/analysis/variable.go
index b625262..58a8fbd 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -145,6 +145,12 @@ func (c contextualVariable) Variable() *Variable {
 	return c.v
 }
 
+// variableUse is where a variable is read
+type variableUse struct {
+	name string
+	pos  protocol.Position
+}
+
 // VariableTable holds the range and the variables inside
 type VariableTable struct {
 	locationRange  protocol.Range
@@ -158,6 +164,11 @@ type VariableTable struct {
 	// except those hidden by the parameters
 	outer  *VariableTable
 	params map[string]bool
+	uses   []variableUse
+	// references are the variables whose values can be read elsewhere
+	references map[string]bool
+	// loops are the ranges of what can be executed again
+	loops []protocol.Range
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -167,7 +178,60 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 		globalDeclares: map[string]bool{},
 		level:          level,
 		sharedNames:    map[string]bool{},
+		references:     map[string]bool{},
+	}
+}
+
+// addReference notes that the value of the variable can be read elsewhere
+func (vt *VariableTable) addReference(name string) {
+	if vt.outer != nil && vt.isShared(name) {
+		vt.outer.addReference(name)
+		return
+	}
+	vt.references[name] = true
+}
+
+// use marks the declarations of the variable before the position as used
+func (vt *VariableTable) use(name string, pos protocol.Position) {
+	if vt.outer != nil && vt.isShared(name) {
+		vt.outer.use(name, pos)
+		return
+	}
+	for i, ctxVar := range vt.variables[name] {
+		if protocol.ComparePos(pos, ctxVar.v.GetLocation().Range.Start) > 0 {
+			vt.variables[name][i].isUsed = true
+		}
+	}
+	vt.uses = append(vt.uses, variableUse{name, pos})
+}
+
+// isUsedElsewhere returns true if the value that is given to the variable can
+// be read by something that is not after it in the text
+func (vt *VariableTable) isUsedElsewhere(variable *Variable) bool {
+	location := variable.GetLocation()
+	if vt.references[variable.Name] {
+		for _, ctxVar := range vt.variables[variable.Name] {
+			if ctxVar.v.GetLocation() != location {
+				return true
+			}
+		}
+		for _, use := range vt.uses {
+			if use.name == variable.Name {
+				return true
+			}
+		}
+	}
+	for _, loop := range vt.loops {
+		if protocol.IsInRange(location.Range.Start, loop) != 0 {
+			continue
+		}
+		for _, use := range vt.uses {
+			if use.name == variable.Name && protocol.IsInRange(use.pos, loop) == 0 {
+				return true
+			}
+		}
 	}
+	return false
 }
 
 // isShared returns true if the variable is also that of the enclosing scope
@@ -186,17 +250,7 @@ func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Posi
 	currentVars := []contextualVariable{}
 	newCtxVar := newContextualVariable(variable, start, isDeclaration)
 	if !isDeclaration {
-		pos := variable.GetLocation().Range.Start
-		if ctxVars, ok := vt.variables[variable.Name]; ok {
-			for i, ctxVar := range ctxVars {
-				if protocol.ComparePos(pos, ctxVar.v.GetLocation().Range.Start) <= 0 {
-					break
-				}
-				if ctxVar.isDeclaration && ctxVar.v.Name == variable.Name {
-					ctxVars[i].isUsed = true
-				}
-			}
-		}
+		vt.use(variable.Name, variable.GetLocation().Range.Start)
 	}
 	if prevVars, ok := vt.variables[variable.Name]; ok {
 		index := 0
@@ -275,7 +329,7 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 	results := []*Variable{}
 	for _, ctxVars := range vt.variables {
 		for _, ctxVar := range ctxVars {
-			if ctxVar.isDeclaration && !ctxVar.isUsed {
+			if ctxVar.isDeclaration && !ctxVar.isUsed && !vt.isUsedElsewhere(ctxVar.v) {
 				results = append(results, ctxVar.v)
 			}
 		}
@@ -323,6 +377,7 @@ func processStaticVariableDeclaration(a analyser, document *Document, node *phra
 	for _, child := range node.Children {
 		if token, ok := child.(*lexer.Token); ok && token.Type == lexer.VariableName {
 			variable, _ := newVariable(a, document, token, true)
+			document.getCurrentVariableTable().addReference(variable.Name)
 			document.addSymbol(variable)
 			continue
 		}
@@ -331,6 +386,53 @@ func processStaticVariableDeclaration(a analyser, document *Document, node *phra
 	return nil
 }
 
+// hasToken returns true if the node has a token of the type
+func hasToken(node *phrase.Phrase, tokenType lexer.TokenType) bool {
+	for _, child := range node.Children {
+		if token, ok := child.(*lexer.Token); ok && token.Type == tokenType {
+			return true
+		}
+	}
+	return false
+}
+
+// addReference notes that the value of a variable can be read elsewhere
+func addReference(document *Document, node phrase.AstNode) {
+	if p, ok := node.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
+		document.getCurrentVariableTable().addReference(document.getPhraseText(p))
+	}
+}
+
+// scanTargets analyses what values are given to, by a list of variables or by
+// foreach.
+func scanTargets(a analyser, document *Document, node phrase.AstNode) {
+	p, ok := node.(*phrase.Phrase)
+	if !ok {
+		scanNode(a, document, node)
+		return
+	}
+	switch p.Type {
+	case phrase.SimpleVariable:
+		if variableNamePhrase(p) != nil {
+			scanNode(a, document, p)
+			return
+		}
+		variable, _ := newVariable(a, document, p, true)
+		document.addSymbol(variable)
+	case phrase.ListIntrinsic, phrase.ArrayCreationExpression, phrase.ArrayInitialiserList,
+		phrase.ArrayElement, phrase.ArrayValue:
+		isReference := hasToken(p, lexer.Ampersand)
+		for _, child := range p.Children {
+			if isReference {
+				addReference(document, child)
+			}
+			scanTargets(a, document, child)
+		}
+	default:
+		scanNode(a, document, p)
+	}
+}
+
 // processEncapsulatedVariable analyses an expression between braces in a
 // string, in which a name at the start of ${...} is that of a variable
 func processEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
-- 
2.43.0


From 071052ca22005d8da5e701a54439ae38c5b96fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 44/70] fix: positions past the end of the text are its end

---
 analysis/document.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/document.go b/analysis/document.go
index 9ffa9a8..a131ab0 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -334,6 +334,10 @@ func utf16Len(text []byte, start int, end int) int {
 }
 
 func (s *Document) positionAt(offset int) protocol.Position {
+	if offset > len(s.text) {
+		// The lexer goes past the end looking for the end of a heredoc
+		offset = len(s.text)
+	}
 	line := s.lineAt(offset)
 	return protocol.Position{
 		Line:      line,
-- 
2.43.0


From 27254b7f4ee3481be42eaa62b8b6a04ee4b58795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 45/70] fix: deprecations of a document are told even if
 another one changes, and after its other diagnostics

---
 analysis/store.go           | 20 ++++++++++++++++----
 internal/lsp/diagnostics.go | 20 ++++++++++----------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index bf17496..7118716 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -123,8 +123,8 @@ type Store struct {
 	closeMu   sync.RWMutex
 	isClosed  bool
 
-	syncedDocumentURIs   cmap.ConcurrentMap
-	DebouncedDeprecation func(func())
+	syncedDocumentURIs cmap.ConcurrentMap
+	deprecations       cmap.ConcurrentMap
 }
 
 func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
@@ -249,12 +249,24 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 		stubbers:  stubbers,
 		documents: cmap.New(),
 
-		syncedDocumentURIs:   cmap.New(),
-		DebouncedDeprecation: debounce.New(2 * time.Second),
+		syncedDocumentURIs: cmap.New(),
+		deprecations:       cmap.New(),
 	}
 	return store, nil
 }
 
+// DebouncedDeprecation calls fn after a while, unless there is another call for
+// the same document by then
+func (s *Store) DebouncedDeprecation(uri string, fn func()) {
+	debounced := s.deprecations.Upsert(uri, nil, func(exist bool, debounced, _ interface{}) interface{} {
+		if exist {
+			return debounced
+		}
+		return debounce.New(2 * time.Second)
+	}).(func(func()))
+	debounced(fn)
+}
+
 // Close triggers close on the fuzzy engine, and closes the disk storage
 func (s *Store) Close() {
 	s.closeMu.Lock()
diff --git a/internal/lsp/diagnostics.go b/internal/lsp/diagnostics.go
index 80e0bb4..21e472a 100644
--- a/internal/lsp/diagnostics.go
+++ b/internal/lsp/diagnostics.go
@@ -12,8 +12,16 @@ import (
 func (s *Server) provideDiagnostics(ctx context.Context, store *analysis.Store, document *analysis.Document) {
 	diagnostics := analysis.GetParserDiagnostics(document)
 	diagnostics = append(diagnostics, analysis.UnusedDiagnostics(document)...)
-	store.DebouncedDeprecation(func() {
-		ctx = xcontext.Detach(ctx)
+	params := &protocol.PublishDiagnosticsParams{
+		URI:         document.GetURI(),
+		Diagnostics: diagnostics,
+	}
+	err := s.client.PublishDiagnostics(ctx, params)
+	if err != nil {
+		log.Println(err)
+	}
+	store.DebouncedDeprecation(document.GetURI(), func() {
+		ctx := xcontext.Detach(ctx)
 		params := &protocol.PublishDiagnosticsParams{
 			URI: document.GetURI(),
 			Diagnostics: append(diagnostics,
@@ -24,12 +32,4 @@ func (s *Server) provideDiagnostics(ctx context.Context, store *analysis.Store,
 			log.Println(err)
 		}
 	})
-	params := &protocol.PublishDiagnosticsParams{
-		URI:         document.GetURI(),
-		Diagnostics: diagnostics,
-	}
-	err := s.client.PublishDiagnostics(ctx, params)
-	if err != nil {
-		log.Println(err)
-	}
 }
-- 
2.43.0


From 2e2ec9ab6c56fae1b045d1c7c6ca6fae2e2d7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 46/70] fix: index the interfaces and traits that extends,
 insteadof and as name

---
 analysis/document.go    |  2 ++
 analysis/interface.go   |  1 +
 analysis/symbol.go      | 20 +++++++++++++++++++-
 analysis/traitAccess.go | 16 ++++++++++++++++
 4 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index a131ab0..b6de62d 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -38,6 +38,8 @@ type Document struct {
 	hasChanges         bool
 	importTables       []*ImportTable
 	insertUseContext   *InsertUseContext
+	// What the interfaces name after extends
+	interfaceBases map[*Interface][]Symbol
 
 	blockStack []BlockSymbol
 }
diff --git a/analysis/interface.go b/analysis/interface.go
index 532c55f..3e39c0c 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -93,6 +93,7 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 						extends.SetFQN(fqn)
 					}
 					s.Extends = append(s.Extends, extends)
+					document.addInterfaceBase(s, newInterfaceAccess(document, p))
 				}
 				child = traverser.Advance()
 			}
diff --git a/analysis/symbol.go b/analysis/symbol.go
index b6560d6..4d25fb1 100644
--- a/analysis/symbol.go
+++ b/analysis/symbol.go
@@ -100,6 +100,7 @@ func transformQualifiedName(n *phrase.Phrase, document *Document) TypeString {
 }
 
 type traverser struct {
+	document    *Document
 	shouldStop  bool
 	stopDescent bool
 }
@@ -109,6 +110,7 @@ func newTraverser() traverser {
 }
 
 func (t *traverser) traverseDocument(document *Document, fn func(*traverser, Symbol, []Symbol)) {
+	t.document = document
 	spine := []Symbol{}
 	for _, child := range document.Children {
 		spine = append(spine, child)
@@ -130,7 +132,7 @@ func (t *traverser) traverseBlock(s Symbol, spine []Symbol, fn func(*traverser,
 	}()
 	if !t.stopDescent {
 		if block, ok := s.(BlockSymbol); ok {
-			for _, child := range block.GetChildren() {
+			for _, child := range t.document.childrenOf(block) {
 				spine = append(spine, child)
 				t.traverseBlock(child, spine, fn)
 				spine = spine[:len(spine)-1]
@@ -148,6 +150,22 @@ func TraverseDocument(document *Document, preorder func(Symbol), postorder func(
 	}
 }
 
+func (s *Document) addInterfaceBase(i *Interface, base Symbol) {
+	if s.interfaceBases == nil {
+		s.interfaceBases = map[*Interface][]Symbol{}
+	}
+	s.interfaceBases[i] = append(s.interfaceBases[i], base)
+}
+
+// childrenOf are the symbols inside a block, in the order of their places.
+func (s *Document) childrenOf(block BlockSymbol) []Symbol {
+	children := block.GetChildren()
+	if i, ok := block.(*Interface); ok && len(s.interfaceBases[i]) > 0 {
+		return append(append([]Symbol(nil), s.interfaceBases[i]...), children...)
+	}
+	return children
+}
+
 func TraverseSymbol(s Symbol, preorder func(Symbol), postorder func(Symbol)) {
 	preorder(s)
 	if block, ok := s.(BlockSymbol); ok {
diff --git a/analysis/traitAccess.go b/analysis/traitAccess.go
index 41b36cd..944d171 100644
--- a/analysis/traitAccess.go
+++ b/analysis/traitAccess.go
@@ -20,6 +20,8 @@ func processTraitUseClause(a analyser, document *Document, node *phrase.Phrase)
 			switch p.Type {
 			case phrase.QualifiedNameList:
 				traitAnalyseQualifiedNameList(document, p)
+			case phrase.TraitUseSpecification:
+				traitAnalyseAdaptations(document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -27,6 +29,20 @@ func processTraitUseClause(a analyser, document *Document, node *phrase.Phrase)
 	return nil
 }
 
+// traitAnalyseAdaptations adds the traits which are named by insteadof and as.
+func traitAnalyseAdaptations(document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			switch p.Type {
+			case phrase.QualifiedName, phrase.FullyQualifiedName:
+				document.addSymbol(newTraitAccess(document, p))
+			default:
+				traitAnalyseAdaptations(document, p)
+			}
+		}
+	}
+}
+
 func traitAnalyseQualifiedNameList(document *Document, node *phrase.Phrase) {
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
-- 
2.43.0


From e35e507f3c227e19ff53fb3c63edaab783bd4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 47/70] fix: read members which are apart from their :: or ->
 by spaces and comments

---
 analysis/memberAccess.go         | 15 ++++++++++++++-
 analysis/scopedConstantAccess.go |  3 +--
 analysis/scopedMethodAccess.go   |  3 +--
 analysis/scopedPropertyAccess.go |  3 +--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index f968319..243d5c8 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -7,10 +7,23 @@ import (
 	"github.com/john-nguyen09/phpintel/util"
 )
 
+func isHidden(token *lexer.Token) bool {
+	return token.Type == lexer.Whitespace || token.Type == lexer.Comment
+}
+
+// advanceToScopedMember advances to what is after ::
+func advanceToScopedMember(traverser *util.Traverser) phrase.AstNode {
+	child := traverser.Advance()
+	for token, ok := child.(*lexer.Token); ok && (isHidden(token) || token.Type == lexer.ColonColon); token, ok = child.(*lexer.Token) {
+		child = traverser.Advance()
+	}
+	return child
+}
+
 func readMemberName(a analyser, document *Document, traverser *util.Traverser) (string, protocol.Location) {
 	next := traverser.Peek()
 	location := protocol.Location{}
-	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Arrow); {
+	for nextToken, ok := next.(*lexer.Token); ok && (isHidden(nextToken) || nextToken.Type == lexer.Arrow); {
 		if nextToken.Type == lexer.Arrow {
 			location.Range.Start = document.positionAt(nextToken.Offset + nextToken.Length)
 			location.Range.End = location.Range.Start
diff --git a/analysis/scopedConstantAccess.go b/analysis/scopedConstantAccess.go
index 84df739..85e185b 100644
--- a/analysis/scopedConstantAccess.go
+++ b/analysis/scopedConstantAccess.go
@@ -27,8 +27,7 @@ func newScopedConstantAccess(a analyser, document *Document, node *phrase.Phrase
 		document.addSymbol(classAccess)
 		constantAccess.Scope = classAccess
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := advanceToScopedMember(traverser)
 	constantAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		constantAccess.Name = analyseMemberName(document, p)
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index 2afc6e7..6472f1c 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -29,8 +29,7 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 		document.addSymbol(classAccess)
 		methodAccess.Scope = classAccess
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := advanceToScopedMember(traverser)
 	methodAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		methodAccess.Name = analyseMemberName(document, p)
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index 6a2e2d3..681eecf 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -30,8 +30,7 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 		document.addSymbol(classAccess)
 		propertyAccess.Scope = classAccess
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := advanceToScopedMember(traverser)
 	propertyAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		propertyAccess.Name = analyseMemberName(document, p)
-- 
2.43.0


From 7e4ca328c25e807c35ceb468c632b93817ec0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 48/70] fix: references are those of what is at the position,
 of the function that is called and not of dynamic names

---
 analysis/document.go          |  3 ++-
 analysis/referenceIndex.go    | 14 +++++++++++++-
 analysis/store.go             |  4 ++++
 internal/lsp/protocol/util.go |  5 +++++
 internal/lsp/reference.go     | 33 +++++++++++++++++++++++++--------
 5 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index b6de62d..db39b4e 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -672,7 +672,8 @@ func (s *Document) HasTypesAtPos(pos protocol.Position) HasTypes {
 		relativePos := protocol.IsInRange(pos, s.GetLocation().Range)
 		relativeEndPos := protocol.ComparePos(pos, s.GetLocation().Range.End)
 		if relativePos == 0 || (relativePos > 0 && relativeEndPos == 0) {
-			if h, ok := s.(HasTypes); ok {
+			// What is inside of another may come before it
+			if h, ok := s.(HasTypes); ok && (result == nil || !protocol.Encloses(h.GetLocation().Range, result.GetLocation().Range)) {
 				result = h
 			}
 		} else if relativePos < 0 {
diff --git a/analysis/referenceIndex.go b/analysis/referenceIndex.go
index aed7429..e4f2e61 100644
--- a/analysis/referenceIndex.go
+++ b/analysis/referenceIndex.go
@@ -52,16 +52,28 @@ func (e referenceEntry) search(store *Store, uri string, ref string) []protocol.
 	if data, err := store.db.Get(dbEntry.getKeyBytes()); err == nil && len(data) != 0 {
 		d := storage.NewDecoder(data)
 		infoCount := d.ReadInt()
+		var prev entryInfo
 		for i := 0; i < infoCount; i++ {
 			info := entryInfoDecode(d)
-			if info.ref == ref {
+			if info.ref == ref && !isFunctionBefore(store, prev, info) {
 				results = append(results, info.r)
 			}
+			prev = info
 		}
 	}
 	return results
 }
 
+// isFunctionBefore tells whether the entry before is of the same call and of an existing
+// function, which is then what is called: a call can be of the function of the namespace
+// or, when there is none, of the global one.
+func isFunctionBefore(store *Store, prev entryInfo, info entryInfo) bool {
+	if prev.r != info.r || !strings.HasSuffix(prev.ref, "()") || strings.HasPrefix(prev.ref, ".") {
+		return false
+	}
+	return len(store.GetFunctions(strings.TrimSuffix(prev.ref, "()"))) > 0
+}
+
 type referenceIndex struct {
 	db      storage.DB
 	entries cmap.ConcurrentMap
diff --git a/analysis/store.go b/analysis/store.go
index 7118716..b2780c9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1250,6 +1250,10 @@ func SymToRefs(document *Document, sym HasTypes) []string {
 			refs = append(refs, t.GetFQN())
 		}
 	case HasTypesHasScope:
+		if p, ok := sym.(*PropertyAccess); ok && strings.HasPrefix(p.Name, "$") {
+			// The value of a variable is the name
+			break
+		}
 		sb := &strings.Builder{}
 		sb.WriteString(".")
 		sb.WriteString(v.MemberName())
diff --git a/internal/lsp/protocol/util.go b/internal/lsp/protocol/util.go
index c3b7fc6..796408d 100644
--- a/internal/lsp/protocol/util.go
+++ b/internal/lsp/protocol/util.go
@@ -19,6 +19,11 @@ func IsInRange(position Position, theRange Range) int {
 	return 0
 }
 
+// Encloses tells whether a range contains all of another one and more
+func Encloses(outer Range, inner Range) bool {
+	return outer != inner && ComparePos(outer.Start, inner.Start) <= 0 && ComparePos(outer.End, inner.End) >= 0
+}
+
 // ComparePos returns -1, 0 or 1 indicating whether a is before, equal to or after b
 func ComparePos(a Position, b Position) int {
 	if a.Line < b.Line {
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index b95199c..f079c20 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -27,6 +27,14 @@ func classScopeFQNAt(document *analysis.Document, pos protocol.Position) string
 	return scopeFQN
 }
 
+func isNameByteAt(text []byte, offset int) bool {
+	if offset < 0 || offset >= len(text) {
+		return false
+	}
+	b := text[offset]
+	return b == '_' || b == '$' || b == '\\' || b >= 0x80 || b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z'
+}
+
 func (s *Server) references(ctx context.Context, params *protocol.ReferenceParams) ([]protocol.Location, error) {
 	results := []protocol.Location{}
 	uri := util.NormaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
@@ -42,12 +50,22 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	document.Load()
 	document.Unlock()
 	pos := params.TextDocumentPositionParams.Position
-	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
+	offset := document.OffsetAtPosition(pos)
+	if text := document.GetText(); !isNameByteAt(text, offset-1) && isNameByteAt(text, offset) {
+		// The name which starts at the position, not what is before it
+		offset++
+	}
+	nodes := document.NodeSpineAt(offset)
 	// log.Printf("Reference: %v %s", pos, nodes)
 	parent := nodes.Parent()
 	fallbackHandler := func() {
 		sym := document.HasTypesAtPos(pos)
 		refs := analysis.SymToRefs(document, sym)
+		if call, ok := sym.(*analysis.FunctionCall); ok {
+			q := analysis.NewQuery(store)
+			importTable := document.ImportTableAtPos(call.GetLocation().Range.Start)
+			refs = []string{importTable.GetFunctionReferenceFQN(q, analysis.NewTypeString(call.Name)) + "()"}
+		}
 		for _, ref := range refs {
 			results = append(results, store.GetReferences(ref)...)
 		}
@@ -67,25 +85,24 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 			fallbackHandler()
 		}
 	case phrase.PropertyElement:
+		nameToken := nodes.Token()
 		ref := "."
-		ref += document.GetNodeText(&parent)
+		ref += document.GetNodeText(&nameToken)
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.ClassDeclarationHeader,
 		phrase.InterfaceDeclarationHeader,
 		phrase.TraitDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
 		ref := name.GetFQN()
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		refs := document.ImportTableAtPos(document.NodeRange(nameToken).Start).FunctionPossibleFQNs(name)
-		for _, ref := range refs {
-			ref += "()"
-			results = append(results, store.GetReferences(ref)...)
-		}
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
+		ref := name.GetFQN() + "()"
+		results = append(results, store.GetReferences(ref)...)
 	default:
 		fallbackHandler()
 	}
-- 
2.43.0


From c5586b851402f8dbb7f3734fbcaed6915c8abd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 49/70] fix: what define declares does not depend on the
 namespace it is in

---
 analysis/define.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/analysis/define.go b/analysis/define.go
index 1db9bbd..61d74c0 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"strings"
+
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis/storage"
@@ -18,6 +20,7 @@ type Define struct {
 	Value         string
 }
 
+var _ HasScope = (*Define)(nil)
 var _ HasTypes = (*Define)(nil)
 var _ HasParamsResolvable = (*Define)(nil)
 
@@ -45,7 +48,8 @@ func newDefine(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		}
 		child = traverser.Advance()
 	}
-	define.Name.SetNamespace(document.currImportTable().GetNamespace())
+	// The name does not depend on the namespace which the call is in
+	define.Name.SetNamespace("")
 	document.popBlock()
 	return nil
 }
@@ -70,7 +74,10 @@ func (s *Define) analyseArgs(document *Document, args *ArgumentList) {
 	if token, ok := firstArg.(*lexer.Token); ok {
 		if token.Type == lexer.StringLiteral {
 			stringText := document.getTokenText(token)
-			s.Name = NewTypeString(stringText[1 : len(stringText)-1])
+			name := strings.ReplaceAll(stringText[1:len(stringText)-1], "\\\\", "\\")
+			name = strings.TrimPrefix(name, "\\")
+			s.Name = NewTypeString(name[strings.LastIndex(name, "\\")+1:])
+			s.Name.SetFQN("\\" + name)
 		}
 	}
 	if len(args.GetArguments()) >= 2 {
@@ -119,6 +126,14 @@ func (s *Define) GetIndexableName() string {
 	return s.Name.GetOriginal()
 }
 
+func (s *Define) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Define) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Define) GetIndexCollection() string {
 	return defineCompletionIndex
 }
-- 
2.43.0


From 8bf7e0999aa24c4122141d02d4f470c5d4ac139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 50/70] fix: searches of constants honour the namespace of the
 keyword

---
 analysis/const.go |  8 ++++++++
 analysis/store.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/analysis/const.go b/analysis/const.go
index 1970a03..71c72b5 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -91,6 +91,14 @@ func (s *Const) GetIndexableName() string {
 	return s.Name.GetOriginal()
 }
 
+func (s *Const) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Const) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Const) GetIndexCollection() string {
 	return constCompletionIndex
 }
diff --git a/analysis/store.go b/analysis/store.go
index b2780c9..0779afd 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -971,9 +971,12 @@ func (s *Store) GetConsts(name string) []*Const {
 	return consts
 }
 
-// SearchConsts uses completion index to search constants matching the given keyword
+// SearchConsts uses completion index to search constants matching the given keyword.
+// `keyword` can contain scope
 func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	consts := []*Const{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
 		collection: constCompletionIndex,
 		keyword:    keyword,
@@ -1009,9 +1012,12 @@ func (s *Store) GetDefines(name string) []*Define {
 	return defines
 }
 
-// SearchDefines uses completion index to search `define()`s matching the given keyword
+// SearchDefines uses completion index to search `define()`s matching the given keyword.
+// `keyword` can contain scope
 func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	defines := []*Define{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
 		collection: defineCompletionIndex,
 		keyword:    keyword,
-- 
2.43.0


From 31fa9ca58e7764e3fb0de6d76fe815a9ac2af336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 51/70] fix: what a completion writes means what it offers, and
 its use declaration is valid and changes no other name

---
 analysis/importTable.go    | 239 +++++++++++++++++++++++++++++++------
 analysis/insertUse.go      | 126 +++++++++++++++----
 internal/lsp/completion.go |  20 ++--
 3 files changed, 313 insertions(+), 72 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index c9acda9..3e7ad8e 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -171,51 +171,214 @@ func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	return possibleFQNs[0]
 }
 
-func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
-	if IsFQN(word) {
-		return name.GetOriginal(), nil
-	}
-	wordNamespace := i.ResolveScopeNamespace(word)
-	nameNamespace := name.GetNamespace()
-	if wordNamespace == nameNamespace || name.GetOriginal() == "" {
-		return name.GetOriginal(), nil
-	}
-	nameParts := name.GetParts()
-	firstPart, nameParts := nameParts[0], nameParts[1:]
-	if item, ok := i.classes[firstPart]; ok && strings.Index(word, item.name) == 0 {
-		if len(nameParts) > 0 {
-			return strings.Join(nameParts, "\\"), nil
+// ResolveToQualified finds what to write at the end of the document so that a name means the symbol
+func (i *ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
+	return i.ResolveToQualifiedAt(nil, document.positionAt(len(document.GetText())), document, symbol, name, word)
+}
+
+// ResolveToQualifiedAt finds what to write instead of the last part of the word, which ends at the
+// position, so that it means the symbol, and the edit which is needed for that.
+func (i *ImportTable) ResolveToQualifiedAt(q *Query, pos protocol.Position, document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
+	short := name.GetOriginal()
+	if IsFQN(word) || short == "" {
+		return short, nil
+	}
+	kind := importKindOf(symbol)
+	if backslash := strings.LastIndex(word, "\\"); backslash >= 0 {
+		scope := word[:backslash]
+		if i.means(q, kind, scope+"\\"+short, name.GetFQN()) {
+			return short, nil
+		}
+		// The scope might be without its leading backslash or its import, e.g. TestNamespace1\Class
+		// only needs `use TestNamespace1;`
+		firstPart, _ := NewTypeString(scope).GetFirstAndRestParts()
+		if strings.EqualFold("\\"+scope, name.GetNamespace()) && !i.isTaken(q, pos, document, importClass, firstPart) {
+			// This does not need `function` or `const` because only the namespace is imported
+			useEdit := GetInsertUseContextAt(document, pos).GetUseEdit(NewTypeString("\\"+firstPart), nil, "")
+			if useEdit != nil {
+				return short, useEdit
+			}
 		}
-		return firstPart, nil
+		return short, replaceScopeEdit(document, pos, name.GetNamespace())
 	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
+	if i.means(q, kind, short, name.GetFQN()) {
+		return short, nil
+	}
+	if alias, ok := i.aliasOf(kind, name.GetFQN()); ok {
+		return alias, nil
+	}
+	if !i.isTaken(q, pos, document, kind, short) {
+		if useEdit := GetInsertUseContextAt(document, pos).GetUseEdit(name, symbol, ""); useEdit != nil {
+			return short, useEdit
+		}
+	}
+	return name.GetFQN(), nil
+}
+
+// replaceScopeEdit makes the scope of the name which ends at the position to be the namespace
+func replaceScopeEdit(document *Document, pos protocol.Position, namespace string) *protocol.TextEdit {
+	word := document.WordAtPos(pos)
+	backslash := strings.LastIndex(word, "\\")
+	if backslash < 0 {
+		return nil
+	}
+	start := document.OffsetAtPosition(pos) - len(word)
+	if strings.EqualFold("\\"+word[:backslash], namespace) {
+		at := document.positionAt(start)
+		return &protocol.TextEdit{Range: protocol.Range{Start: at, End: at}, NewText: "\\"}
+	}
+	return &protocol.TextEdit{
+		Range:   protocol.Range{Start: document.positionAt(start), End: document.positionAt(start + backslash)},
+		NewText: strings.TrimSuffix(namespace, "\\"),
+	}
+}
+
+type importKind int
+
+const (
+	importClass importKind = iota
+	importFunction
+	importConst
+)
+
+func importKindOf(symbol Symbol) importKind {
 	switch symbol.(type) {
-	case *Function, *Const, *Define:
-		// Functions, constants on \ can be used within any namespaces without the need of
-		// use statement
-		if nameNamespace == "\\" {
-			return name.GetOriginal(), nil
+	case *Function:
+		return importFunction
+	case *Const, *Define:
+		return importConst
+	}
+	return importClass
+}
+
+// fqnsOf are what the name can mean, in order
+func (i *ImportTable) fqnsOf(kind importKind, name string) []string {
+	typeString := NewTypeString(name)
+	switch kind {
+	case importFunction:
+		return i.possibleFQNs(typeString, i.lookUpFunction)
+	case importConst:
+		return i.possibleFQNs(typeString, i.lookUpConst)
+	}
+	if fqn, ok := i.importedFQN(typeString, i.lookUpClass); ok {
+		return []string{fqn}
+	}
+	typeString.SetNamespace(i.GetNamespace())
+	return []string{typeString.GetFQN()}
+}
+
+// means tells whether the name means what has the FQN
+func (i *ImportTable) means(q *Query, kind importKind, name string, fqn string) bool {
+	for _, possible := range i.fqnsOf(kind, name) {
+		if possible == fqn || kind != importConst && strings.EqualFold(possible, fqn) {
+			return true
 		}
+		if isDeclared(q, kind, possible) {
+			return false
+		}
+	}
+	return false
+}
+
+func isDeclared(q *Query, kind importKind, fqn string) bool {
+	if q == nil {
+		return false
+	}
+	switch kind {
+	case importFunction:
+		return len(q.GetFunctions(fqn)) > 0
+	case importConst:
+		return len(q.GetConsts(fqn)) > 0 || len(q.GetDefines(fqn)) > 0
 	}
-	// Aliases
-	for alias, item := range i.classes {
-		if "\\"+item.name == name.GetFQN() {
-			return alias, nil
+	return len(q.GetClasses(fqn)) > 0 || len(q.GetInterfaces(fqn)) > 0 || len(q.GetTraits(fqn)) > 0
+}
+
+func (i *ImportTable) importsOf(kind importKind) map[string]*importItem {
+	switch kind {
+	case importFunction:
+		return i.functions
+	case importConst:
+		return i.constants
+	}
+	return i.classes
+}
+
+// aliasOf finds the name which what has the FQN is imported as
+func (i *ImportTable) aliasOf(kind importKind, fqn string) (string, bool) {
+	result, ok := "", false
+	for alias, item := range i.importsOf(kind) {
+		itemFQN := "\\" + item.name
+		if itemFQN != fqn && (kind == importConst || !strings.EqualFold(itemFQN, fqn)) {
+			continue
+		}
+		if !ok || alias < result {
+			result, ok = alias, true
 		}
 	}
-	// Anything below will require insert use
-	insertUse := GetInsertUseContext(document)
-	// Calculate what to inlude in insert use, because it is possible
-	// that the current word has a scope, e.g. TestNamespace1\Class.
-	// Therefore, it only needs `use TestNamespace1;`
-	currentWordScope, _ := GetScopeAndNameFromString(word)
-	if currentWordScope != "" && currentWordScope == nameNamespace {
-		// If this goes here we don't need to include `function` or `const` in use
-		// because we only insert the namespace
-		return name.GetOriginal(), insertUse.GetUseEdit(NewTypeString(nameNamespace), nil, "")
-	}
-	return name.GetOriginal(), insertUse.GetUseEdit(name, symbol, "")
+	return result, ok
+}
+
+// isTaken tells whether something cannot be imported as the name, because the name means
+// something else already. The name which ends at the position is not what is asked about.
+func (i *ImportTable) isTaken(q *Query, pos protocol.Position, document *Document, kind importKind, name string) bool {
+	for alias := range i.importsOf(kind) {
+		if strings.EqualFold(alias, name) {
+			return true
+		}
+	}
+	declared := NewTypeString(name)
+	declared.SetNamespace(i.GetNamespace())
+	isTaken := false
+	check := func(otherKind importKind, other TypeString) {
+		if kind == otherKind && strings.EqualFold(other.GetFQN(), declared.GetFQN()) {
+			isTaken = true
+		}
+	}
+	checkReference := func(refKind importKind, ref string, r protocol.Range) {
+		if IsFQN(ref) || protocol.IsInRange(pos, r) == 0 || document.ImportTableAtPos(r.Start) != i {
+			return
+		}
+		firstPart, parts := NewTypeString(ref).GetFirstAndRestParts()
+		if !strings.EqualFold(firstPart, name) || len(parts) == 0 && refKind != kind || len(parts) > 0 && kind != importClass {
+			return
+		}
+		for _, fqn := range i.fqnsOf(refKind, ref) {
+			if isDeclared(q, refKind, fqn) {
+				isTaken = true
+			}
+		}
+	}
+	t := newTraverser()
+	t.traverseDocument(document, func(t *traverser, s Symbol, _ []Symbol) {
+		switch v := s.(type) {
+		case *Class:
+			check(importClass, v.Name)
+		case *Interface:
+			check(importClass, v.Name)
+		case *Trait:
+			check(importClass, v.Name)
+		case *Function:
+			check(importFunction, v.Name)
+		case *Const:
+			check(importConst, v.Name)
+		case *FunctionCall:
+			checkReference(importFunction, v.Name, v.Location.Range)
+		case *ConstantAccess:
+			checkReference(importConst, v.Name, v.Location.Range)
+		case *ClassTypeDesignator:
+			checkReference(importClass, v.Name, v.Location.Range)
+		case *ClassAccess:
+			checkReference(importClass, v.Name, v.Location.Range)
+		case *TypeDeclaration:
+			checkReference(importClass, v.Name, v.Location.Range)
+		case *InterfaceAccess:
+			checkReference(importClass, v.Name, v.Location.Range)
+		case *TraitAccess:
+			checkReference(importClass, v.Name, v.Location.Range)
+		}
+		t.shouldStop = isTaken
+	})
+	return isTaken
 }
 
 func (i ImportTable) GetNamespace() string {
diff --git a/analysis/insertUse.go b/analysis/insertUse.go
index a24948a..f468c5b 100644
--- a/analysis/insertUse.go
+++ b/analysis/insertUse.go
@@ -1,6 +1,9 @@
 package analysis
 
 import (
+	"strings"
+
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -11,36 +14,92 @@ type InsertUseContext struct {
 	firstInline  *phrase.Phrase
 	namespaceDef *phrase.Phrase
 	lastUse      *phrase.Phrase
+	// lastDeclare is the last declare which is before everything else
+	lastDeclare *phrase.Phrase
+	// openBrace of the namespaceDef, if it has a block
+	openBrace *lexer.Token
 }
 
+// GetInsertUseContext finds where use declarations are inserted for the end of the document
 func GetInsertUseContext(document *Document) InsertUseContext {
+	return getInsertUseContextAt(document, len(document.GetText()))
+}
+
+// GetInsertUseContextAt finds where use declarations for the position are inserted, which is
+// before the position and in its namespace
+func GetInsertUseContextAt(document *Document, pos protocol.Position) InsertUseContext {
+	return getInsertUseContextAt(document, document.OffsetAtPosition(pos))
+}
+
+func getInsertUseContextAt(document *Document, offset int) InsertUseContext {
 	if document.insertUseContext != nil {
 		return *document.insertUseContext
 	}
-	insertUseCtx := InsertUseContext{
-		document:     document,
-		firstInline:  nil,
-		namespaceDef: nil,
-		lastUse:      nil,
-	}
-	traverser := util.NewTraverser(document.GetRootNode())
-	child := traverser.Advance()
-	for child != nil {
-		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
-			case phrase.InlineText:
-				if insertUseCtx.firstInline == nil {
-					insertUseCtx.firstInline = p
+	insertUseCtx := InsertUseContext{document: document}
+	insertUseCtx.scan(document.GetRootNode(), offset)
+	return insertUseCtx
+}
+
+func (i *InsertUseContext) scan(node *phrase.Phrase, offset int) {
+	isLeading := true
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			continue
+		}
+		lastToken := util.LastToken(p)
+		if lastToken == nil {
+			continue
+		}
+		end := lastToken.Offset + lastToken.Length
+		switch p.Type {
+		case phrase.InlineText:
+			if i.firstInline == nil && lastToken.Type == lexer.OpenTag && end <= offset {
+				i.firstInline = p
+			}
+		case phrase.DeclareStatement:
+			if isLeading && i.firstInline != nil && end <= offset {
+				i.lastDeclare = p
+			}
+		case phrase.NamespaceDefinition:
+			isLeading = false
+			if openBrace, block := namespaceBlock(p); openBrace == nil {
+				if end <= offset {
+					i.namespaceDef, i.openBrace, i.lastUse = p, nil, nil
+				}
+			} else if openBrace.Offset < offset && (lastToken.Type != lexer.CloseBrace || offset <= lastToken.Offset) {
+				i.namespaceDef, i.openBrace, i.lastUse = p, openBrace, nil
+				if block != nil {
+					i.scan(block, offset)
 				}
-			case phrase.NamespaceDefinition:
-				insertUseCtx.namespaceDef = p
-			case phrase.NamespaceUseDeclaration:
-				insertUseCtx.lastUse = p
 			}
+		case phrase.DocumentComment:
+		case phrase.NamespaceUseDeclaration:
+			isLeading = false
+			if end <= offset {
+				i.lastUse = p
+			}
+		default:
+			isLeading = false
 		}
-		child = traverser.Advance()
 	}
-	return insertUseCtx
+}
+
+// namespaceBlock finds the open brace, and the statements, of a namespace which has a block
+func namespaceBlock(node *phrase.Phrase) (openBrace *lexer.Token, block *phrase.Phrase) {
+	for _, child := range node.Children {
+		switch c := child.(type) {
+		case *lexer.Token:
+			if c.Type == lexer.OpenBrace && openBrace == nil {
+				openBrace = c
+			}
+		case *phrase.Phrase:
+			if c.Type == phrase.StatementList {
+				block = c
+			}
+		}
+	}
+	return openBrace, block
 }
 
 func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
@@ -50,6 +109,9 @@ func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	if i.namespaceDef != nil {
 		return i.namespaceDef
 	}
+	if i.lastDeclare != nil {
+		return i.lastDeclare
+	}
 	if i.firstInline != nil {
 		return i.firstInline
 	}
@@ -57,10 +119,19 @@ func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	return nil
 }
 
+// insertAfterToken finds the token which use declarations are inserted after
+func (i InsertUseContext) insertAfterToken() *lexer.Token {
+	if i.lastUse == nil && i.namespaceDef != nil && i.openBrace != nil {
+		return i.openBrace
+	}
+	if afterNode := i.GetInsertAfterNode(); afterNode != nil {
+		return util.LastToken(afterNode)
+	}
+	return nil
+}
+
 func (i InsertUseContext) GetInsertPosition() (protocol.Position, bool) {
-	afterNode := i.GetInsertAfterNode()
-	if afterNode != nil {
-		lastToken := util.LastToken(afterNode)
+	if lastToken := i.insertAfterToken(); lastToken != nil {
 		return i.document.positionAt(lastToken.Offset + lastToken.Length), true
 	}
 	return protocol.Position{}, false
@@ -75,6 +146,12 @@ func (i InsertUseContext) GetUseEdit(typeString TypeString, symbol Symbol, alias
 		afterNode := i.GetInsertAfterNode()
 		text := eol
 
+		switch i.insertAfterToken().Type {
+		case lexer.Semicolon, lexer.OpenBrace, lexer.CloseBrace, lexer.OpenTag:
+		default:
+			// The statement before is ended by what comes after
+			text = ";" + text
+		}
 		if afterNode.Type == phrase.NamespaceDefinition {
 			text += eol
 		}
@@ -110,7 +187,8 @@ func getIndentation(document *Document, node *phrase.Phrase) string {
 		Line:      tokenStartPosition.Line,
 		Character: 0,
 	})
-	return string(document.GetText()[startOffset:firstToken.Offset])
+	indentation := string(document.GetText()[startOffset:firstToken.Offset])
+	return indentation[:len(indentation)-len(strings.TrimLeft(indentation, " \t"))]
 }
 
 func getNewLine(document *Document, node *phrase.Phrase) string {
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 8255848..e98f7ef 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -224,19 +224,19 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	completionList.IsIncomplete = !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, class, class.Name, word)
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -252,7 +252,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	defines, searchResult := store.SearchDefines(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -269,7 +269,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	functions, searchResult := store.SearchFunctions(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
@@ -305,7 +305,7 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	completionList.IsIncomplete = !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		name, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		name, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, class, class.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -424,7 +424,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 	completionList.IsIncomplete = !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, class, class.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -440,7 +440,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -529,7 +529,7 @@ func interfaceCompletion(ctx *completionContext, word string) *protocol.Completi
 	completionList.IsIncomplete = !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	return completionList
@@ -545,7 +545,7 @@ func traitCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	completionList.IsIncomplete = !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, trait := range traits {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, trait, trait.Name, word)
+		label, textEdit := importTable.ResolveToQualifiedAt(ctx.query, ctx.pos, ctx.doc, trait, trait.Name, word)
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, label, textEdit))
 	}
 	return completionList
-- 
2.43.0


From 6fdbd8c9c408cf8437e1908696f10a43260c6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 52/70] fix: new self and new parent are of the class they are
 in and of its parent

---
 analysis/classTypeDesignator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index bc86c5d..43390a2 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -48,6 +48,13 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
+				if name := document.getPhraseText(p); IsNameRelative(name) {
+					s.Type.merge(newRelativeScope(document, s.Location).Types)
+					break
+				} else if IsNameParent(name) {
+					s.Type.merge(newParentScope(document, s.Location).Types)
+					break
+				}
 				typeString := transformQualifiedName(p, document)
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 				s.Name = typeString.GetOriginal()
-- 
2.43.0


From ffadcd4e4e8e21d4d7597d12f8b3fc634cfd5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 53/70] fix: a method that returns static returns only what it
 is called on, through parent:: the current class

---
 analysis/methodAccess.go       | 4 ++--
 analysis/relativeScope.go      | 8 ++++++++
 analysis/scopedMethodAccess.go | 9 +++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index d432e7f..a660dda 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -57,12 +57,12 @@ func (s *MethodAccess) Resolve(ctx ResolveContext) {
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
 		for _, class := range q.GetClasses(scopeType.GetFQN()) {
 			for _, m := range q.GetClassMethods(class, s.Name, nil).ReduceAccess(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), scopeOfType(scopeType)))
 			}
 		}
 		for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
 			for _, m := range q.GetInterfaceMethods(theInterface, s.Name, nil).ReduceAccess(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), scopeOfType(scopeType)))
 			}
 		}
 	}
diff --git a/analysis/relativeScope.go b/analysis/relativeScope.go
index e8845c9..ca98125 100644
--- a/analysis/relativeScope.go
+++ b/analysis/relativeScope.go
@@ -15,6 +15,14 @@ func IsNameParent(name string) bool {
 	return name == "parent"
 }
 
+// scopeOfType is what a member found through only one of the types of its
+// scope is accessed on.
+func scopeOfType(t TypeString) HasTypes {
+	types := newTypeComposite()
+	types.add(t)
+	return &RelativeScope{Types: types}
+}
+
 func resolveMemberTypes(types TypeComposite, scope HasTypes) TypeComposite {
 	newTypes := newTypeComposite()
 	for _, t := range types.Resolve() {
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index 6472f1c..405eef1 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -61,14 +61,19 @@ func (s *ScopedMethodAccess) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	currentClass := ctx.document.GetClassScopeAtSymbol(s.Scope)
 	for _, scopeType := range s.ResolveAndGetScope(ctx).Resolve() {
+		staticType := scopeType
+		if access, ok := s.Scope.(*ClassAccess); ok && IsNameParent(access.Name) {
+			// What is called through parent:: is still called on the current class
+			staticType = NewTypeString(currentClass)
+		}
 		for _, class := range q.GetClasses(scopeType.GetFQN()) {
 			for _, m := range q.GetClassMethods(class, s.Name, nil).ReduceStatic(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), scopeOfType(staticType)))
 			}
 		}
 		for _, intf := range q.GetInterfaces(scopeType.GetFQN()) {
 			for _, m := range q.GetInterfaceMethods(intf, s.Name, nil).ReduceStatic(currentClass, s) {
-				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), scopeOfType(staticType)))
 			}
 		}
 	}
-- 
2.43.0


From 827ca0cd2c34ffb034c2383bd742e86e28bb0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 54/70] fix: arrays have no members, and a type can be listed
 with its array

---
 analysis/expression.go     |  2 +-
 analysis/memberAccess.go   |  2 +-
 analysis/symbolType.go     | 17 ++++++++++++++---
 internal/lsp/completion.go |  2 +-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/analysis/expression.go b/analysis/expression.go
index 3e29447..2bef532 100644
--- a/analysis/expression.go
+++ b/analysis/expression.go
@@ -32,7 +32,7 @@ func (e *Expression) Resolve(ctx ResolveContext) {
 func (e *Expression) ResolveAndGetScope(ctx ResolveContext) TypeComposite {
 	if e.Scope != nil {
 		e.Scope.Resolve(ctx)
-		return e.Scope.GetTypes()
+		return e.Scope.GetTypes().WithoutArrays()
 	}
 	return newTypeComposite()
 }
diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 243d5c8..f2815e0 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -70,5 +70,5 @@ func (m *MemberAccessExpression) ScopeName() string {
 // ScopeTypes returns the types of the scope, this should be resolved
 // before calling this
 func (m *MemberAccessExpression) ScopeTypes() TypeComposite {
-	return m.Scope.GetTypes()
+	return m.Scope.GetTypes().WithoutArrays()
 }
diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index a64ef82..b13e4ec 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -222,9 +222,9 @@ func (t TypeComposite) MarshalJSON() ([]byte, error) {
 	return json.Marshal(t.typeStrings)
 }
 
-func (t *TypeComposite) hasFQN(fqn string) bool {
+func (t *TypeComposite) has(other TypeString) bool {
 	for _, typeString := range t.typeStrings {
-		if typeString.GetFQN() == fqn {
+		if typeString.GetFQN() == other.GetFQN() && typeString.arrayLevel == other.arrayLevel {
 			return true
 		}
 	}
@@ -232,7 +232,7 @@ func (t *TypeComposite) hasFQN(fqn string) bool {
 }
 
 func (t *TypeComposite) add(typeString TypeString) {
-	if t.hasFQN(typeString.GetFQN()) {
+	if t.has(typeString) {
 		return
 	}
 	t.typeStrings = append(t.typeStrings, typeString)
@@ -244,6 +244,17 @@ func (t *TypeComposite) merge(types TypeComposite) {
 	}
 }
 
+// WithoutArrays are the types which can have members.
+func (t TypeComposite) WithoutArrays() TypeComposite {
+	types := newTypeComposite()
+	for _, typeString := range t.typeStrings {
+		if typeString.arrayLevel == 0 {
+			types.add(typeString)
+		}
+	}
+	return types
+}
+
 func (t *TypeComposite) mergeWithArrayLevel(types TypeComposite, arrayLevel int) {
 	for _, typeString := range types.typeStrings {
 		typeString.arrayLevel += arrayLevel
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index e98f7ef..cc626a0 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -35,7 +35,7 @@ func fromHasTypes(h analysis.HasTypes) incompleteMemberAccess {
 	}
 	return incompleteMemberAccess{
 		location:   h.GetLocation(),
-		scopeTypes: h.GetTypes(),
+		scopeTypes: h.GetTypes().WithoutArrays(),
 		scopeName:  scopeName,
 	}
 }
-- 
2.43.0


From a319b2800b5697f64de10e95edb7d174664f1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:46 +0000
Subject: [PATCH 55/70] fix: an annotation that names a variable does not type
 the others on the line

---
 analysis/variable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/analysis/variable.go b/analysis/variable.go
index 58a8fbd..e87cbbf 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -80,6 +80,9 @@ func (s *Variable) mergeTypesWithVariable(variable *Variable) {
 
 func (s *Variable) applyPhpDoc(document *Document, phpDoc phpDocComment) {
 	for _, varTag := range phpDoc.Vars {
+		if varTag.Name != "" && varTag.Name != s.Name {
+			continue
+		}
 		s.Type.merge(typesFromPhpDoc(document, varTag.TypeString))
 	}
 }
-- 
2.43.0


From f40766492e06ecabab1b32822fcdccee7b65c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:27 +0000
Subject: [PATCH 56/70] fix: what is caught is of the types it is caught as

---
 analysis/try.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/analysis/try.go b/analysis/try.go
index 951ddff..effac2f 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -21,13 +21,34 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) S
 }
 
 func processCatchClause(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	types := newTypeComposite()
 	for _, child := range node.Children {
 		if token, ok := child.(*lexer.Token); ok && token.Type == lexer.VariableName {
-			variable, _ := newVariable(a, document, token, true)
+			variable := newVariableWithoutPushing(document, token)
+			variable.Type.merge(types)
+			document.pushVariable(a, variable, variable.GetLocation().Range.End, true)
 			document.addSymbol(variable)
 			continue
 		}
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.CatchNameList {
+			types = caughtTypes(document, p)
+		}
 		scanNode(a, document, child)
 	}
 	return nil
 }
+
+func caughtTypes(document *Document, names *phrase.Phrase) TypeComposite {
+	types := newTypeComposite()
+	for _, child := range names.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			switch p.Type {
+			case phrase.QualifiedName, phrase.FullyQualifiedName:
+				typeString := transformQualifiedName(p, document)
+				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
+				types.add(typeString)
+			}
+		}
+	}
+	return types
+}
-- 
2.43.0


From e96250b6fd7f00f60a7fc241496acd4605c882e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:00 +0000
Subject: [PATCH 57/70] fix: a local variable does not type the global of the
 same name

---
 analysis/assignment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/assignment.go b/analysis/assignment.go
index fc74595..0d6d405 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -82,7 +82,7 @@ func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phras
 		scanNode(a, document, rhs)
 	}
 	globalVariable := document.getGlobalVariable(variable.Name)
-	if globalVariable != nil {
+	if globalVariable != nil && variable.canReferenceGlobal {
 		types := variable.GetTypes()
 		if !types.IsEmpty() {
 			globalVariable.types.merge(types)
-- 
2.43.0


From 1df261da16baff9ce64a530d6853b3f0a0fde1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:24 +0000
Subject: [PATCH 58/70] fix: a typed property is of its type

---
 analysis/property.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/analysis/property.go b/analysis/property.go
index 313e8a1..882a994 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -48,6 +48,7 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 	traverser := util.NewTraverser(node)
 	visibility := Public
 	isStatic := false
+	types := newTypeComposite()
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
@@ -56,8 +57,9 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 				visibility, isStatic, _ = getMemberModifier(p)
 			case phrase.TypeDeclaration:
 				scanNode(a, document, p)
+				types.merge(typesFromPhpDoc(document, document.getPhraseText(typeName(p))))
 			case phrase.PropertyElementList:
-				newPropertyList(a, document, p, visibility, isStatic)
+				newPropertyList(a, document, p, visibility, isStatic, types)
 			}
 		}
 		child = traverser.Advance()
@@ -66,11 +68,14 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 }
 
 func newPropertyList(a analyser, document *Document, node *phrase.Phrase,
-	visibility VisibilityModifierValue, isStatic bool) {
+	visibility VisibilityModifierValue, isStatic bool, types TypeComposite) {
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.PropertyElement {
 			property := newProperty(a, document, p, visibility, isStatic)
+			if property.Types.IsEmpty() {
+				property.Types.merge(types)
+			}
 			document.addSymbol(property)
 		}
 	}
-- 
2.43.0


From 23c44430bfcc30ae584dfc32c97b230112f4b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:46 +0000
Subject: [PATCH 59/70] fix: a call is of the type its function is declared to
 return

---
 analysis/function.go        |  3 +++
 analysis/typeDeclaration.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/analysis/function.go b/analysis/function.go
index 86616b0..8471bd5 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -45,6 +45,9 @@ func newFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
 				if phpDoc != nil {
 					function.applyPhpDoc(document, *phpDoc)
 				}
+				if function.returnTypes.IsEmpty() {
+					function.returnTypes.merge(nativeReturnTypes(document, p))
+				}
 				for _, param := range function.Params {
 					lastToken := util.LastToken(p)
 					variableTable.add(a, param.ToVariable(), document.positionAt(lastToken.Offset+lastToken.Length), true)
diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 51ec2d3..2d8c7f3 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -29,6 +29,20 @@ func typeName(node *phrase.Phrase) *phrase.Phrase {
 	return node
 }
 
+// nativeReturnTypes are the types in the header of a function, which are told natively.
+func nativeReturnTypes(document *Document, header *phrase.Phrase) TypeComposite {
+	for _, child := range header.Children {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ReturnType {
+			for _, child := range p.Children {
+				if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.TypeDeclaration {
+					return typesFromPhpDoc(document, document.getPhraseText(typeName(p)))
+				}
+			}
+		}
+	}
+	return newTypeComposite()
+}
+
 func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaration {
 	isNative := node.Type == phrase.TypeDeclaration
 	if isNative {
-- 
2.43.0


From 7ed0563db22cf227b7e01b695dfc6c86797d9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:54 +0000
Subject: [PATCH 60/70] fix: a define in an expression is a constant

---
 analysis/functionCall.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index c28c83c..223350c 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -44,6 +44,12 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	functionCall := &FunctionCall{
 		Expression: Expression{},
 	}
+	if isDefine(document, node) {
+		functionCall.Location = document.GetNodeLocation(node)
+		functionCall.Name = "define"
+		newDefine(a, document, node)
+		return functionCall, false
+	}
 	document.addSymbol(functionCall)
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
-- 
2.43.0


From fb1bae26154178e6b593a9d8ae697b8722c397e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:44 +0000
Subject: [PATCH 61/70] fix: hovering over a static method of an interface
 shows it

---
 internal/lsp/hover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index 753beb0..546e165 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -129,6 +129,9 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 			for _, class := range q.GetClasses(scopeType.GetFQN()) {
 				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
 			}
+			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
+			}
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		if len(methods) > 0 {
-- 
2.43.0


From 8dbbba88251cfc83f5fef3c6c32923d857ff18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:05 +0000
Subject: [PATCH 62/70] fix: completion right after the arrow offers the
 members

---
 internal/lsp/completion.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index cc626a0..36edf1f 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -145,8 +145,21 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 				completionList = scopedAccessCompletion(completionCtx, word, fromHasTypes(s))
 			}
 		}
-	case phrase.PropertyAccessExpression:
+	case phrase.PropertyAccessExpression, phrase.MethodCallExpression:
+		if completionCtx.token.Type != lexer.Arrow {
+			break
+		}
 		s := document.HasTypesBeforePos(params.Position)
+		switch access := s.(type) {
+		case *analysis.PropertyAccess:
+			if access.Location.Range.Start == pos {
+				s = access.Scope
+			}
+		case *analysis.MethodAccess:
+			if access.Location.Range.Start == pos {
+				s = access.Scope
+			}
+		}
 		if s != nil {
 			s.Resolve(resolveCtx)
 			completionList = memberAccessCompletion(completionCtx, word, fromHasTypes(s))
-- 
2.43.0


From 66478e6b6987ea35f7e9aa193ca390dcd91f8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:45 +0000
Subject: [PATCH 63/70] fix: completion after the colons when what follows is
 elsewhere or the scope is a variable

---
 internal/lsp/completion.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 36edf1f..9f61f2c 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -94,6 +94,7 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case phrase.SimpleVariable, phrase.EncapsulatedVariableList:
 		if nodes.Parent().Type == phrase.ScopedMemberName {
 			if s, ok := symbol.(*analysis.ScopedPropertyAccess); ok {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 			break
@@ -119,18 +120,25 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case phrase.ErrorScopedAccessExpression, phrase.ClassConstantAccessExpression:
 		if s, ok := symbol.(*analysis.ScopedConstantAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
+		} else {
+			completionList = scopeBeforeCompletion(completionCtx, resolveCtx, word)
 		}
 	case phrase.ScopedCallExpression:
 		if s, ok := symbol.(*analysis.ScopedMethodAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
+		} else {
+			completionList = scopeBeforeCompletion(completionCtx, resolveCtx, word)
 		}
 	case phrase.ScopedPropertyAccessExpression:
 		if s, ok := symbol.(*analysis.ScopedPropertyAccess); ok {
 			if s.Scope != nil {
+				s.Scope.Resolve(resolveCtx)
 				completionList = scopedAccessCompletion(completionCtx, word, s)
 			}
 		}
@@ -334,6 +342,20 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	return completionList
 }
 
+// scopeBeforeCompletion completes right after the colons when the name, or what the parser
+// takes for it, comes later
+func scopeBeforeCompletion(ctx *completionContext, resolveCtx analysis.ResolveContext, word string) *protocol.CompletionList {
+	if ctx.token.Type != lexer.ColonColon {
+		return nil
+	}
+	scope := ctx.doc.HasTypesBeforePos(ctx.pos)
+	if scope == nil {
+		return nil
+	}
+	scope.Resolve(resolveCtx)
+	return scopedAccessCompletion(ctx, word, fromHasTypes(scope))
+}
+
 func scopedAccessCompletion(ctx *completionContext, word string, access analysis.MemberAccess) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
-- 
2.43.0


From 352d4de8e5f456edfdc6424e1a92a46dcbe7fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:47 +0000
Subject: [PATCH 64/70] fix: complete the variable that a static access is on

---
 internal/lsp/completion.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 9f61f2c..bf13f63 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -195,7 +195,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case *analysis.ClassTypeDesignator:
 		completionList = classCompletion(completionCtx, s.Name)
 	case *analysis.ClassAccess:
-		completionList = typeCompletion(completionCtx, s.Name)
+		if s.Scope == nil {
+			completionList = typeCompletion(completionCtx, s.Name)
+		}
 	case *analysis.TypeDeclaration:
 		completionList = typeCompletion(completionCtx, s.Name)
 	}
-- 
2.43.0


From a9e0965900b12693c604ed4637ddff0f80429d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:36 +0000
Subject: [PATCH 65/70] fix: self in an interface of a namespace is that
 interface

---
 analysis/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/interface.go b/analysis/interface.go
index 3e39c0c..2b45a4f 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -45,7 +45,6 @@ func newInterface(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		}
 		child = traverser.Advance()
 	}
-	theInterface.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.popBlock()
 	document.leaveClass()
 	return nil
@@ -59,6 +58,7 @@ func (s *Interface) analyseHeader(document *Document, node *phrase.Phrase, phpDo
 			switch token.Type {
 			case lexer.Name:
 				s.Name = NewTypeString(document.getTokenText(token))
+				s.Name.SetNamespace(document.currImportTable().GetNamespace())
 				s.refLocation = document.GetNodeLocation(token)
 				if phpDoc != nil {
 					s.description = phpDoc.Description
-- 
2.43.0


From d2b3076e8c451ebf7e2ffe47b8a021ea9f5a9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:36 +0000
Subject: [PATCH 66/70] fix: tell exactly the references to what is deprecated

Inherited constants, static methods of interfaces and the parents of an
interface were missed; an expression before double colons or after new was told
as if it named its class.
---
 analysis/diagnostic.go | 46 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 0b1bb0f..a3bacbb 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -94,8 +94,13 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 		}
 	}
 	diagnostics := []protocol.Diagnostic{}
-	TraverseDocument(doc, func(s Symbol) {
+	var visit func(Symbol)
+	visit = func(s Symbol) {
 		switch v := s.(type) {
+		case *Interface:
+			for _, base := range doc.interfaceBases[v] {
+				visit(base)
+			}
 		case *FunctionCall:
 			t := NewTypeString(v.Name)
 			fqn := doc.ImportTableAtPos(v.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, t)
@@ -109,6 +114,10 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ClassTypeDesignator:
+			if v.Name == "" {
+				// It is not a name
+				break
+			}
 			v.Resolve(ctx)
 		LClassTypeDesignator:
 			for _, t := range v.GetTypes().Resolve() {
@@ -146,6 +155,10 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ClassAccess:
+			if v.Scope != nil {
+				// An expression, it does not name its class
+				break
+			}
 			v.Resolve(ctx)
 		LClass:
 			for _, t := range v.GetTypes().Resolve() {
@@ -210,13 +223,21 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ScopedConstantAccess:
+			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedConstant:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, c := range q.GetClassConsts(scopeType.GetFQN(), v.Name) {
-					if c.deprecatedTag != nil {
+				ccs := EmptyInheritedClassConst()
+				for _, class := range q.GetClasses(scopeType.GetFQN()) {
+					ccs.Merge(q.GetClassClassConsts(class, v.Name, ccs.SearchedFQNs))
+				}
+				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+					ccs.Merge(q.GetInterfaceClassConsts(theInterface, v.Name, ccs.SearchedFQNs))
+				}
+				for _, c := range ccs.ReduceStatic(currentClass, v) {
+					if c.Const.deprecatedTag != nil {
 						diagnostics = append(diagnostics, create(
 							v.Location.Range,
-							deprecatedDescription(c.ReferenceFQN()+" is deprecated", c.deprecatedTag),
+							deprecatedDescription(c.Const.ReferenceFQN()+" is deprecated", c.Const.deprecatedTag),
 						))
 						break LScopedConstant
 					}
@@ -240,6 +261,20 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 						}
 					}
 				}
+				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+					for _, m := range q.GetInterfaceMethods(theInterface, v.Name, nil).ReduceStatic(currentClass, v) {
+						if m.Method == nil {
+							continue
+						}
+						if m.Method.deprecatedTag != nil {
+							diagnostics = append(diagnostics, create(
+								v.Location.Range,
+								deprecatedDescription(m.Method.ReferenceFQN()+" is deprecated", m.Method.deprecatedTag),
+							))
+							break LScopedMethod
+						}
+					}
+				}
 			}
 		case *ScopedPropertyAccess:
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
@@ -324,7 +359,8 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		}
-	}, nil)
+	}
+	TraverseDocument(doc, visit, nil)
 	return diagnostics
 }
 
-- 
2.43.0


From 2f606abf3c38e85d5eac434e3f620f728986310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:38 +0000
Subject: [PATCH 67/70] fix: index the changes of files that the client
 provides

---
 internal/lsp/sync.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 3f84b36..43ecf69 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -45,6 +45,18 @@ func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.Did
 				continue
 			}
 
+			if s.fileExtensionsSupported {
+				for _, uri := range s.clientFiles(ctx, change.URI) {
+					wg.Add(1)
+					s.store.createJobs <- creatorJob{
+						uri:       uri,
+						ctx:       ctx,
+						waitGroup: &wg,
+					}
+				}
+				continue
+			}
+
 			filePath, err := util.URIToPath(change.URI)
 			if err != nil {
 				continue
@@ -95,3 +107,22 @@ func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.Did
 	}()
 	return nil
 }
+
+// clientFiles returns the PHP files that the URI of a file or a folder of the client
+// stands for, the disk that the server sees may have none of them
+func (s *Server) clientFiles(ctx context.Context, uri protocol.DocumentURI) []protocol.DocumentURI {
+	if strings.HasSuffix(uri, ".php") {
+		return []protocol.DocumentURI{uri}
+	}
+	docs, err := protocol.NewLSPFS(s.Conn).ListFiles(ctx, uri)
+	if err != nil {
+		log.Printf("clientFiles: %v", err)
+	}
+	var files []protocol.DocumentURI
+	for _, doc := range docs {
+		if strings.HasSuffix(doc.URI, ".php") {
+			files = append(files, doc.URI)
+		}
+	}
+	return files
+}
-- 
2.43.0


From d6c20cf05168b2ff5ad6b593b99fa5207d4544fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:41 +0000
Subject: [PATCH 68/70] fix: remove the deleted files of a folder that is not
 on the disk

---
 analysis/store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 0779afd..fb952dc 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -580,7 +580,8 @@ func (s *Store) FinishIndexing() {
 
 func (s *Store) getSyncedDocumentURIs() map[string][]byte {
 	documentURIs := make(map[string][]byte)
-	entry := newEntry(documentCollection, "file://")
+	// The stubs have a scheme of their own
+	entry := newEntry(documentCollection, strings.SplitN(s.uri, ":", 2)[0]+"://")
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		documentURIs[strings.Split(string(it.Key()), KeySep)[1]] = it.Value()
 	})
-- 
2.43.0


From de21b697465d1cbceb3703c7cc288fe372464559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:58 +0000
Subject: [PATCH 69/70] fix: find the PHP files of a client that escapes more
 of their URIs

---
 internal/lsp/protocol/fs.go | 3 +++
 internal/lsp/sync.go        | 1 +
 2 files changed, 4 insertions(+)

diff --git a/internal/lsp/protocol/fs.go b/internal/lsp/protocol/fs.go
index 3414b0e..976ddbe 100644
--- a/internal/lsp/protocol/fs.go
+++ b/internal/lsp/protocol/fs.go
@@ -55,6 +55,9 @@ func (f *URIFS) ReadFile(ctx context.Context, uri string) ([]byte, error) {
 // ListFiles uses workspace/xfiles request to list files under a base
 func (f *URIFS) ListFiles(ctx context.Context, base string) (docs []TextDocumentIdentifier, err error) {
 	err = f.conn.Call(ctx, "workspace/xfiles", FilesParams{Base: base}, &docs)
+	for i := range docs {
+		docs[i].URI = util.NormaliseURI(docs[i].URI)
+	}
 	return
 }
 
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 43ecf69..0430fee 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -111,6 +111,7 @@ func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.Did
 // clientFiles returns the PHP files that the URI of a file or a folder of the client
 // stands for, the disk that the server sees may have none of them
 func (s *Server) clientFiles(ctx context.Context, uri protocol.DocumentURI) []protocol.DocumentURI {
+	uri = util.NormaliseURI(uri)
 	if strings.HasSuffix(uri, ".php") {
 		return []protocol.DocumentURI{uri}
 	}
-- 
2.43.0


From 5bf2da2fd7d256d090602233a76a0d9f7b53074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:07 +0000
Subject: [PATCH 70/70] fix: resolve a document again after the index has
 changed

---
 analysis/document.go |  2 ++
 analysis/store.go    | 30 +++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index db39b4e..caa3092 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -40,6 +40,8 @@ type Document struct {
 	insertUseContext   *InsertUseContext
 	// What the interfaces name after extends
 	interfaceBases map[*Interface][]Symbol
+	// indexVersion is the version of the index that symbols are resolved against
+	indexVersion int32
 
 	blockStack []BlockSymbol
 }
diff --git a/analysis/store.go b/analysis/store.go
index fb952dc..87629d7 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Masterminds/semver"
@@ -122,6 +123,8 @@ type Store struct {
 	docLocks  [64]sync.Mutex
 	closeMu   sync.RWMutex
 	isClosed  bool
+	// version is that of the index, which differs after each change to it
+	version int32
 
 	syncedDocumentURIs cmap.ConcurrentMap
 	deprecations       cmap.ConcurrentMap
@@ -355,8 +358,25 @@ func (s *Store) lockDocument(uri protocol.DocumentURI) (unlock func()) {
 }
 
 // GetOrCreateDocument checks if the store contains the given URI or
-// create a new document with the given URI
+// create a new document with the given URI. Symbols keep the types they are resolved to, so
+// a document which the index has changed since is analysed again
 func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	version := atomic.LoadInt32(&s.version)
+	document := s.getOrCreateDocument(ctx, uri)
+	if document == nil || !s.documents.Has(uri) || atomic.LoadInt32(&document.indexVersion) == version {
+		return document
+	}
+	renewed := document.CloneForMutate()
+	renewed.indexVersion = version
+	renewed.Load()
+	defer s.lockDocument(uri)()
+	if value, ok := s.documents.Get(uri); ok && value.(*Document) == document {
+		s.SaveDocOnStore(renewed)
+	}
+	return renewed
+}
+
+func (s *Store) getOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
 	var document *Document
 	if value, ok := s.documents.Get(uri); !ok {
 		data, err := s.FS.ReadFile(ctx, uri)
@@ -391,7 +411,7 @@ func (s *Store) OpenDocument(uri protocol.DocumentURI, text string) *Document {
 func (s *Store) ChangeDocument(ctx context.Context, uri protocol.DocumentURI,
 	changes []protocol.TextDocumentContentChangeEvent) *Document {
 	defer s.lockDocument(uri)()
-	document := s.GetOrCreateDocument(ctx, uri)
+	document := s.getOrCreateDocument(ctx, uri)
 	if document == nil {
 		return nil
 	}
@@ -435,6 +455,7 @@ func (s *Store) deleteDocument(uri protocol.DocumentURI) {
 	if s.isClosed {
 		return
 	}
+	defer atomic.AddInt32(&s.version, 1)
 	s.markNotSynced(uri)
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		return s.comDB.WriteBatch(func(comB storage.Batch) error {
@@ -481,7 +502,7 @@ func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Docume
 }
 
 func (s *Store) compareAndIndex(ctx context.Context, uri string) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
+	document := s.getOrCreateDocument(ctx, uri)
 	if document == nil {
 		return nil
 	}
@@ -515,6 +536,9 @@ func (s *Store) SyncDocument(document *Document) {
 	if s.isClosed {
 		return
 	}
+	defer func() {
+		atomic.StoreInt32(&document.indexVersion, atomic.AddInt32(&s.version, 1))
+	}()
 	s.markNotSynced(document.GetURI())
 	var documentSymbols, oldSymbols []documentSymbol
 	err := s.db.WriteBatch(func(b storage.Batch) error {
-- 
2.43.0

