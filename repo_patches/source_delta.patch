From bd01ac54b03abe88ced86a5105cff4950d13047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:04 +0000
Subject: [PATCH 01/15] fix: tolerate white space after JSON value read in a
 separate chunk

A frame body with trailing white space made the next ReadHeader fail with
ErrReadBody, so the session was terminated, whenever the white space was
not read into the JSON decoder buffer together with the value, e.g. for
particular frame sizes.
---
 pkg/webextensions/frame.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..a0f987f 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -55,8 +55,12 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 
 func (r *FrameLimitedReader) ReadHeader() error {
 	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+		// Decoder stops at the end of JSON value, so white space
+		// after it may be still unread if it has not got
+		// into the decoder buffer.
+		if err := r.discardSpace(); err != nil {
+			return err
+		}
 	}
 	r.LimitedReader.N = 4
 	var size uint32
@@ -70,6 +74,23 @@ func (r *FrameLimitedReader) ReadHeader() error {
 	return nil
 }
 
+func (r *FrameLimitedReader) discardSpace() error {
+	var buf [512]byte
+	for r.LimitedReader.N != 0 {
+		n, err := r.Read(buf[:])
+		if len(bytes.Trim(buf[:n], " \t\r\n")) != 0 {
+			return ErrReadBody
+		}
+		if r.LimitedReader.N != 0 && err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return err
+		}
+	}
+	return nil
+}
+
 type FrameWriter interface {
 	io.Writer
 	WriteFrame() error
-- 
2.43.0


From a0fad0dfab86d5f8c68924c45b679d1def7fafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:33 +0000
Subject: [PATCH 02/15] fix: keep proper ancestors for Org headings with
 skipped levels

Slice of open headings was extended over stale or nil elements when
a heading level was skipped. As a result a link was shown under a heading
that does not contain it or the process crashed on serializing
of a nil heading. Headings deeper than 10 were moved to level 9.
---
 pkg/burl_links/extract_org.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..dd1c370 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -127,6 +127,7 @@ func OrgLinkMatchIsUrl(match []string) *Link {
 
 func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode, error) {
 	headings := make([]*Heading, 0, 10)
+	levels := make([]int, 0, cap(headings))
 	tree := NewTreeChildrenNode(nil)
 	treeNodes := make([]*TreeChildrenNode, 1, cap(headings)+1)
 	treeNodes[0] = &tree
@@ -138,18 +139,17 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
+			// Ancestors are open headings of lower levels, some levels may be skipped.
+			n := len(headings)
+			for n > 0 && levels[n-1] >= level {
+				n--
 			}
-			headings = headings[0 : level-1]
-			if len(treeNodes) >= level {
-				treeNodes = treeNodes[0:level]
-			}
-			for i := len(headings); i < level-1; i++ {
-				headings = append(headings, nil)
+			if len(treeNodes) > n+1 {
+				treeNodes = treeNodes[:n+1]
 			}
+			levels = append(levels[:n], level)
 			h := &Heading{lineNo, matchHeading[2]}
-			headings = append(headings, h)
+			headings = append(headings[:n], h)
 		}
 		if matchArray := reLink.FindAllStringSubmatch(line, -1); matchArray != nil {
 			for _, match := range matchArray {
-- 
2.43.0


From c5bb959018430d53cf875f63dadef21629fd1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 03/15] fix: recognize Org headings with trailing white space

Such lines were considered as ordinary text, so links were shown
under a wrong heading.
---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index dd1c370..6f80c5c 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -25,7 +25,7 @@ import (
 	"strings"
 )
 
-var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
+var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 
 // "mid": mail messages, absent in default Org configuration, see
 // RFC 2392 - Content-ID and Message-ID Uniform Resource Locators
-- 
2.43.0


From caefa3fdff09a290bd361744eee8593cd8a4328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 04/15] fix: do not crash on negative or huge countLimit

Arbitrary integer is accepted in the urlMentions request, negative values
led to out of range slice bounds, large ones to integer overflow.
---
 pkg/burl_links/node_count.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..b308950 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,14 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	// Negative or huge (integer overflow) values cause panic while
+	// the limit is being distributed between child nodes.
+	if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
+	if target < 0 {
+		target = 0
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From 0deefabed8d156474faeff5eed3089c3bbacff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 05/15] fix: match scheme of bracket links as a whole

Alternatives were not grouped, so any bracket link that contains "http"
or "mid:" or starts with "doi" was considered as a link having
an allowed scheme.
---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 6f80c5c..15f884b 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3a4bb228755f6063e8fa25fc01cbe31aa3ea85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 06/15] fix: do not share arguments of emacsclient between
 requests

append() to UserArgs having spare capacity writes to the same array,
so a concurrent request could run emacsclient with arguments of another one.
---
 pkg/burl_emacs/emacs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..3d31c15 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,11 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// Do not append to UserArgs directly, its underlying array
+	// is shared between concurrent requests.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From e0d96938c59368b3040fc696b5bc9278b85cd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:52 +0000
Subject: [PATCH 07/15] fix: add missing exec permission to existing wrapper

Permission was adjusted only if the file had neither read nor execute
bits, so an up to date wrapper having e.g. 0644 mode was left
not executable.
---
 pkg/burl_fileutil/fileutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..80e6d31 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -79,8 +79,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
-				if err := os.Chmod(path, perm|0500); err != nil {
+			if missing := mode & 0500 &^ perm; missing != 0 {
+				if err := os.Chmod(path, perm|missing); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From d4850420a7cdacbe74a5fda0bfbf9aced96042f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 08/15] fix: allow to overwrite an empty file with -force

Read from an empty file returns EOF that was treated as a failure.
---
 pkg/burl_fileutil/fileutil.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 80e6d31..9bdced0 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -65,7 +66,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		defer file.Close()
 		count, err := file.Read(data)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From 7f8c0e18a1e5149762fe28ab5fa4afa879cf36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:14 +0000
Subject: [PATCH 09/15] fix: compare whole existing file with 4096 bytes long
 content

The buffer had no room for an extra byte, so an up to date file was
considered as too large and a longer file having the same beginning
as unchanged.
---
 pkg/burl_fileutil/fileutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 9bdced0..4a3b6a8 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -56,7 +56,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
-- 
2.43.0


From c52d56d8add1986cd98912c0e4bb42af49a2ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 10/15] fix: escape arguments in the wrapper for any POSIX
 shell

printf %q represents new lines, control, and in the case of non-UTF-8
locale, non-ASCII characters using $'...' that is not supported e.g. by dash,
so backend was started with wrong file names.
---
 pkg/burl_fileutil/escape_printf.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..e743948 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,11 @@
 
 package burl_fileutil
 
-import "os/exec"
+import "strings"
 
-// TODO avoid printf external process
+// Suitable for POSIX shell. "printf %q" from coreutils is not an option since
+// e.g. dash does not support $'...' syntax used for newlines, control, and,
+// depending on locale, non-ASCII characters.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	return "'" + strings.Replace(arg, "'", `'\''`, -1) + "'", nil
 }
-- 
2.43.0


From d8e7b5e6ff1a49595a479d7621b60ab3f5efcc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 11/15] fix: length of wrapper error frame for long and
 non-ASCII backend paths

${#err} was formatted as a single byte of unlimited width and, depending
on shell, counted characters rather than bytes.
---
 cmd/burl_backend/install.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..eb07298 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -132,7 +132,8 @@ BURL_BACKEND=%s
 	exec "$BURL_BACKEND" %s
 err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'"): file not found or not executable\"}"
 # platform endian-dependent hack
-/usr/bin/printf "\\x$(printf '%%x' "${#err}")\\x00\\x00\\x00"
+len="$(printf '%%s' "$err" | wc -c)"
+/usr/bin/printf "$(printf '\\x%%02x\\x%%02x' $((len %% 256)) $((len / 256)))\\x00\\x00"
 printf '%%s' "$err"
 `
 			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
-- 
2.43.0


From d7b4486b4220a91e27e80d11c8467f26b8736823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 12/15] fix: filter links by URL in burl_tool

Result of UrlVariants has been discarded, so all links were reported.
Allow to use -set with files specified only by -org and -txt.
---
 cmd/burl_tool/burl_tool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..cccb718 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -56,14 +56,14 @@ func mainWithGracefulShutdown() error {
 	flag.Var(&set, "set", "Link prefix to extract set of links")
 	flag.Usage = Usage
 	flag.Parse()
-	if flag.NArg() < 1 {
+	if flag.NArg() < 1 && len(set) == 0 {
 		return fmt.Errorf("%w: no url to query", usageError)
 	}
 
 	nextArg := 0
 	variants := make([]string, 0, 8)
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = append(variants, burl_url.UrlVariants(flag.Arg(0))...)
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From 2234ae4f42420c50817d1f35d27e00f9f49827f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 13/15] fix: whole links for linkSet prefixes longer than
 scheme

Text after a long prefix was required to be a valid link suffix on its own,
so e.g. plain links equal to the prefix or having just one more character
were missed while e.g. a prefix with spaces gave text that is not a link.
---
 pkg/burl_links/extract_org.go | 25 +++++++++++++++++++++----
 pkg/burl_links/extract_txt.go |  2 +-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 15f884b..4a0346a 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -189,6 +189,18 @@ func MakeLinkSetBase(filters []string) (string, error) {
 	return "(?:" + strings.Join(base, "|") + ")", nil
 }
 
+// Pattern matching schemes of already validated linkSet prefixes.
+// Whole links should be extracted first, only after that it is possible
+// to check if they start from the prefixes. Otherwise the rest of the link
+// following a long prefix is not necessary a valid link suffix.
+func makeLinkSetSchemeReStr(filters []string) string {
+	schemes := make([]string, 0, len(filters))
+	for _, prefix := range filters {
+		schemes = append(schemes, regexp.QuoteMeta(strings.SplitN(prefix, ":", 2)[0]))
+	}
+	return "(?:" + MakeSchemeReStr(schemes) + "):"
+}
+
 // TODO: buld filter regexp ones for several files.
 func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
@@ -197,8 +209,9 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	reAngle := "<(" + base + reAngleSuffixStr + ")>"
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	schemeBase := makeLinkSetSchemeReStr(filters)
+	reAngle := "<(" + schemeBase + reAngleSuffixStr + ")>"
+	rePlain := "\\b(" + schemeBase + rePlainSuffixStr + ")"
 	reSetLink, err := regexp.Compile(reBracketStr + "|" + reAngle + "|" + rePlain)
 	if err != nil {
 		return err
@@ -219,9 +232,13 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 					(*result)[bracket] = true
 				}
 			} else if angle := match[3]; len(angle) > 0 {
-				(*result)[angle] = true
+				if reBracketPrefix.MatchString(angle) {
+					(*result)[angle] = true
+				}
 			} else if plain := match[4]; len(plain) > 0 {
-				(*result)[plain] = true
+				if reBracketPrefix.MatchString(plain) {
+					(*result)[plain] = true
+				}
 			} else {
 				log.Printf("burl_links.OrgLinkSource.ExtractSet: internal error '%v'", match[0])
 			}
diff --git a/pkg/burl_links/extract_txt.go b/pkg/burl_links/extract_txt.go
index 9c56289..3c30352 100644
--- a/pkg/burl_links/extract_txt.go
+++ b/pkg/burl_links/extract_txt.go
@@ -108,7 +108,7 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	rePlain := "\\b(" + makeLinkSetSchemeReStr(filters) + rePlainSuffixStr + ")"
 	reSetLink, err := regexp.Compile(rePlain)
 	if err != nil {
 		return err
-- 
2.43.0


From ed8e4a2a02fe2b933ab93092da19ab464f4716bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:32 +0000
Subject: [PATCH 14/15] fix: distance shortcuts of fuzzy search consistent with
 edit distance

Zero limit branch was case-sensitive and length difference was estimated
in bytes, so suitable URLs might be discarded.
---
 pkg/burl_fuzzy/rank.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 7fd2203..8f16c04 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -19,6 +19,7 @@ import (
 	"container/heap"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 type WeightedString struct {
@@ -87,13 +88,13 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 	case limit < 0:
 		return EditorDistance(len(word)) * SubstitutionDistance
 	case limit == 0:
-		if strings.Contains(word, query) {
+		if strings.Contains(strings.ToLower(word), strings.ToLower(query)) {
 			return 0
 		} else {
 			return EditorDistance(len(word)) * SubstitutionDistance
 		}
 	}
-	lenDiff := EditorDistance(len(query)-len(word)) * InsertionDistance
+	lenDiff := EditorDistance(utf8.RuneCountInString(query)-utf8.RuneCountInString(word)) * InsertionDistance
 	if lenDiff > limit {
 		return lenDiff
 	}
-- 
2.43.0


From dfe2e8efb7ff50c698fb65ee15083cea5c12c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:35 +0000
Subject: [PATCH 15/15] fix: refuse manifests with values that are not valid
 UTF-8

Invalid bytes are replaced in JSON strings, so the name differed from
the file name and the path pointed to another file.
---
 pkg/webextensions/manifest.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/webextensions/manifest.go b/pkg/webextensions/manifest.go
index 1bae90a..9b80e06 100644
--- a/pkg/webextensions/manifest.go
+++ b/pkg/webextensions/manifest.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"strings"
+	"unicode/utf8"
 )
 
 // Due to excessive number of fields, there is no point in New function.
@@ -48,6 +49,14 @@ func (m *Manifest) Init() error {
 	if m.Path == "" || !filepath.IsAbs(m.Path) {
 		return errors.New("\"path\" is not specified")
 	}
+	// JSON strings can not represent other bytes, they would be replaced.
+	for _, list := range [][]string{{m.Name, m.Path}, m.AllowedOrigins, m.AllowedExtensions} {
+		for _, s := range list {
+			if !utf8.ValidString(s) {
+				return fmt.Errorf("Not a valid UTF-8 string: %q", s)
+			}
+		}
+	}
 	if m.ManifestPath == "" {
 		return errors.New("Path for manifest file is not specified")
 	}
-- 
2.43.0

