From 5c0e2682dab837dc71d56ef1af6dcce047dc99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 01/13] fix: do not hold connMut while waiting for space in the
 recv buffer

When more command batches were in flight than fit into the recv buffer and
the receiver's read list, the sender waited inside recvBuffer.push with
connMut held. If the connection failed then, the receiver could not get
connMut for recording the error, and both goroutines (and every caller)
were blocked forever.
---
 memcache/sender.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..5a23830 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,15 +244,21 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// connMut MUST NOT be held here: when the recv buffer is full, push waits for the receiver,
+	// and the receiver needs connMut for handling a connection error
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 601f9c4108f77bfd41b63759961e946d5d2a8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 02/13] fix: complete all batches of a pipeline flushed on a
 closed client

publish completed only the first batch with ErrConnClosed, so a pipeline with
more than maxCommandsPerBatch commands waited forever for its other batches.
---
 memcache/sender.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 5a23830..ca412ac 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -269,7 +269,9 @@ func (s *sender) sendToWriter() (closed bool) {
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
 	if closed {
-		cmd.setCompleted(ErrConnClosed)
+		for current := cmd; current != nil; current = current.sibling {
+			current.setCompleted(ErrConnClosed)
+		}
 	}
 }
 
-- 
2.43.0


From 81daeee16f1d9ff7e7c48ff63a4b78c884b0b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 03/13] fix: discard unread data of a broken connection before
 using its replacement

Bytes that were received on a connection after its last answered command
stayed in the response reader and were returned as the replies to the first
commands sent over the new connection.
---
 memcache/core.go   | 6 ++++++
 memcache/reader.go | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..815abee 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -17,6 +17,7 @@ type coreConnection struct {
 	// job data
 	msgData []byte
 	cmdList *cmdListReader
+	conn    *senderConnection // TCP connection of the last command list
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +79,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if current.conn != c.conn {
+		// data of the previous TCP connection MUST NOT be used for the commands of the new one
+		c.conn = current.conn
+		c.responseReader.reset()
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..9ae3ef3 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -302,4 +302,6 @@ func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.currentBinary = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From e6a24142455535259e4dadfa918b096bf7b950c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 04/13] fix: limit the time of the password handshake by the
 dial timeout

Without a deadline a server that accepts the connection but never answers the
authentication command blocked New, reconnecting and Close forever.
---
 memcache/netconn/auth.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..c29bc46 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		// the handshake must not take forever when the server does not answer
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,13 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Time{}); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From b138e423ea1bc044826b317ee787aae27d7d30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 05/13] fix: reject a mget reply with no number after the cas
 flag

---
 memcache/parser.go | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..417ff47 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -131,29 +131,21 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-func findNumber(data []byte, index int) (uint64, int) {
-	foundIndex := -1
-	var firstChar byte
-	for i := index; i < len(data); i++ {
-		if isDigit(data[i]) {
-			foundIndex = i
-			firstChar = data[i]
-			break
-		}
+// findNumber returns the number after zero or more spaces, it does NOT look past any other character
+func findNumber(data []byte, index int) (num uint64, nextIndex int, ok bool) {
+	i := index
+	for i < len(data) && data[i] == ' ' {
+		i++
 	}
 
-	num := uint64(firstChar - '0')
-
-	var i int
-	for i = foundIndex + 1; i < len(data); i++ {
-		if !isDigit(data[i]) {
-			break
-		}
+	firstIndex := i
+	for i < len(data) && isDigit(data[i]) {
 		num *= 10
 		num += uint64(data[i] - '0')
+		i++
 	}
 
-	return num, i // next index right after number
+	return num, i, i > firstIndex // next index right after number
 }
 
 func (p *parser) returnIfCRLF(index int, resp MGetResponse) (MGetResponse, error) {
@@ -181,7 +173,10 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
-			cas, nextIndex := findNumber(p.data, i+1)
+			cas, nextIndex, ok := findNumber(p.data, i+1)
+			if !ok {
+				return 0, ErrInvalidMGet
+			}
 			resp.CAS = cas
 			i = nextIndex - 1
 			continue
@@ -213,7 +208,10 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
-	_, index := findNumber(p.data, 3)
+	_, index, ok := findNumber(p.data, 2)
+	if !ok {
+		return MGetResponse{}, ErrInvalidMGet
+	}
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From c30a600dd871f253c49b0bb9cfdbbf2cbf79fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 06/13] fix: reject a mget reply with an impossible data length

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index 9ae3ef3..1999e34 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -45,6 +45,11 @@ func newResponseReader() *responseReader {
 
 var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
+// maxResponseDataLen is bigger than any item memcached can store
+const maxResponseDataLen = 1 << 30
+
+var errDataTooLarge = ErrBrokenPipe{reason: "data length after VA is too large"}
+
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
 func (r *responseReader) writeResponse(data []byte) {
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxResponseDataLen {
+				return r.setErrorAndReturn(errDataTooLarge)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 3872967c2b9cb9901c865c3b9f1fb8ed02b548e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 07/13] fix: do not swallow the reply after an error reply
 without a message

---
 memcache/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 417ff47..a83af48 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -244,13 +244,15 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	var data []byte
+	if index < crlfIndex-2 { // message can be empty
+		data = p.data[index+1 : crlfIndex-2]
+	}
 
 	p.skipData(crlfIndex)
 
-- 
2.43.0


From 873463b7dbd0ffee438ec373c1ecea25b337afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 08/13] fix: check the length of a flush_all reply before
 parsing it

---
 memcache/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index a83af48..f71baf7 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -425,6 +425,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From e03256e0ee062853afbb1a01558bf0a03d5a59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 09/13] fix: fail the rest of a batch after a malformed reply

---
 memcache/pipeline.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..2af4b22 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for index, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +137,15 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, malformed := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+
+			if malformed { // the replies of the remaining commands can NOT be located
+				for _, remaining := range pipelineCommands[index+1:] {
+					remaining.err = cmd.err
+				}
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 4b0744b2c960796c030b63429a2699745b09e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 10/13] fix: return an error when a statistics answer is cut

---
 memcache/stats/stats.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..f791455 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,8 @@ package stats
 
 import (
 	"bufio"
+	"bytes"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -61,6 +63,7 @@ func New(addr string, options ...Option) *Client {
 	}
 
 	scanner := bufio.NewScanner(nc.Reader)
+	scanner.Split(scanWholeLines)
 
 	return &Client{
 		nc:      nc,
@@ -69,6 +72,17 @@ func New(addr string, options ...Option) *Client {
 	}
 }
 
+// scanWholeLines is similar to bufio.ScanLines, but never returns a line cut by the end of the stream
+func scanWholeLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if index := bytes.IndexByte(data, '\n'); index >= 0 {
+		return index + 1, bytes.TrimSuffix(data[:index], []byte("\r")), nil
+	}
+	if atEOF && len(data) > 0 {
+		return 0, nil, io.ErrUnexpectedEOF
+	}
+	return 0, nil, nil
+}
+
 // GeneralStats ...
 type GeneralStats struct {
 	PID    uint64
@@ -498,7 +512,11 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.ErrUnexpectedEOF // missing END
 }
 
 type statItem struct {
-- 
2.43.0


From 1cc1dc375c06b6853e13b413014e7779a4b6a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 11/13] fix: do not leave the rest of a bad statistics answer
 to the next call

---
 memcache/stats/parser.go | 18 ++++++++++++++++++
 memcache/stats/stats.go  | 11 +++++++++++
 2 files changed, 29 insertions(+)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..e8b4c21 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -11,6 +11,8 @@ type statsParser struct {
 	lastErr error
 	item    statItem
 	scanner *bufio.Scanner
+
+	insideAnswer bool // some lines of the current answer had been read, but not yet its END
 }
 
 func newStatsParser(scanner *bufio.Scanner) *statsParser {
@@ -53,21 +55,27 @@ func (p *statsParser) next() bool {
 	fields := strings.Fields(line)
 	if len(fields) == 0 {
 		p.lastErr = NewError("empty line")
+		p.skipToEnd()
 		return false
 	}
 
 	if fields[0] == "END" {
+		p.insideAnswer = false
 		p.item = statItem{}
 		return false
 	}
 
 	if fields[0] != "STAT" {
 		p.lastErr = NewError("line not begin with STAT")
+		p.skipToEnd()
 		return false
 	}
 
+	p.insideAnswer = true
+
 	if len(fields) < 3 {
 		p.lastErr = NewError("missing stat fields")
+		p.skipToEnd()
 		return false
 	}
 
@@ -79,6 +87,16 @@ func (p *statsParser) next() bool {
 	return true
 }
 
+// skipToEnd skips the remaining lines of the current answer, otherwise they would be read by the next command.
+// An answer with only a single error line does NOT have END.
+func (p *statsParser) skipToEnd() {
+	for p.insideAnswer && p.scanner.Scan() {
+		if p.scanner.Text() == "END" {
+			p.insideAnswer = false
+		}
+	}
+}
+
 func (p *statsParser) getError() error {
 	return p.lastErr
 }
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index f791455..de8d506 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -112,6 +112,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -119,6 +120,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -226,6 +228,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -233,6 +236,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -240,6 +244,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 		}
@@ -408,6 +413,7 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.parser.skipToEnd()
 			return SlabItemsStats{}, err
 		}
 	}
@@ -503,11 +509,16 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 	for c.scanner.Scan() {
 		line := c.scanner.Text()
 		if line == "END" {
+			c.parser.insideAnswer = false
 			return nil
 		}
+		if strings.HasPrefix(line, "key=") {
+			c.parser.insideAnswer = true
+		}
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
+			c.parser.skipToEnd()
 			return err
 		}
 		scanFunc(key)
-- 
2.43.0


From 704dad9069247f205a00dd22effec3b0abc6d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 12/13] fix: do not use remaining data of a broken connection
 for later commands

---
 memcache/core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 815abee..b78e6e1 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -84,6 +84,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 		c.conn = current.conn
 		c.responseReader.reset()
 	}
+	if err := current.conn.getLastErrorInternal(); err != nil {
+		// remaining data of a broken TCP connection MUST NOT be used for the commands published after that
+		inc.apply(c, current)
+		return err
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
-- 
2.43.0


From 9e26c96f5dd1e6466116828bd007ce605a5c0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 13/13] fix: close the connection when its keep-alive option
 can not be set

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0

