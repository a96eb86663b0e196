From 68a896a819af7dfef692e80a80e9ee9ca4e1327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 01/23] fix: scan multi-byte characters whole instead of
 splitting them mid code point

Scalars and comments advanced a single byte at a time, which panics inside of
any non ASCII character.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 11 +++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs | 13 +++++++++----
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..c5250f7 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,14 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            // Safety: !isBreakZ guarantees the slice is not empty
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +366,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +673,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..01ecd0b 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(&buffer.as_bytes()[..width])
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..d6bb09f 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,14 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            // Safety: !isWhiteSpaceZ guarantees the slice is not empty
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -325,9 +328,11 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
                 || flow_context && flow_indicator(buffer, 0)
             {
+                // Include the whitespace character if there is one, as it
+                // is required to find the end of the scalar
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
-                    true => 2,
+                    true => 1 + widthOf!(~buffer, 1),
                     false => 1,
                 };
 
@@ -337,7 +342,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From f35e40b580cdd75ae79528d33adbd1159db6786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 02/23] fix: reject double quoted unicode escapes that are not
 characters

A surrogate or a value above U+10FFFF has no UTF8 encoding, and paniced when the
scalar was turned into a string.
---
 src/scanner/scalar/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..811f1d9 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,6 +176,13 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Surrogates and values past the end of the code space are
+    // not characters, and have no UTF8 encoding
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From c48cf7e4ec1fc79c38d91e5ca0ab893ada0c5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 03/23] fix: reject percent encoded tag characters that are not
 UTF8

Overlong and surrogate sequences passed the octet shape checks and paniced when
the tag was turned into a string.
---
 src/scanner/scalar/escape.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index 811f1d9..deb82a7 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -99,6 +99,7 @@ pub(in crate::scanner) fn tag_uri_unescape(
 {
     let mut buffer = base;
     let mut codepoint_len: i8 = 0;
+    let start = scratch.len();
 
     while {
         cache!(~buffer, 3, opts)?;
@@ -149,6 +150,13 @@ pub(in crate::scanner) fn tag_uri_unescape(
     }
     {}
 
+    // Overlong sequences and surrogates are shaped like UTF8, but
+    // aren't
+    if std::str::from_utf8(&scratch[start..]).is_err()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     Ok(base.len() - buffer.len())
 }
 
-- 
2.43.0


From 581693cabf39d5b20594cf4eed9fe4b5e4c6231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 04/23] fix: accept verbatim tags

The closing '>' was looked for one byte too far and the delimiters were missing
from the stream position; a verbatim tag was then also refused for having no
handle to resolve.
---
 src/event/parser/mod.rs | 7 +++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..1320d00 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1265,6 +1265,13 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // Verbatim tags (!<suffix>) have no handle, and thus are not
+        // subject to resolution
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..894894c 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From 83da4c6ba73d3ce672b49982ef7f21e1c85e3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 05/23] fix: empty block scalars and explicit indentation
 headers

Without a content line the start of the content was past its end, and the
range paniced. An indentation header made every block scalar such a scalar as
its first line's indentation was never consumed.
---
 src/scanner/scalar/block.rs | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index c5250f7..b4803cb 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,19 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -161,11 +173,19 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Preceding lines are not adjacent to the content, as it
+    // must be indented
+    can_borrow = can_borrow && lines == 0;
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
@@ -341,7 +361,19 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From f382082a52b513ed6d0f0bb1c72061df2b7d5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 06/23] fix: line break after a borrowed block scalar line

The width of the break was read one byte past it, dropping the final line break
at the end of the stream, and slicing into or after the wrong character
elsewhere. Breaks other than LF must also be normalized.
---
 src/scanner/scalar/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b4803cb..bec3efd 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -541,6 +541,16 @@ fn scan_chomp<'de>(
         mut lines,
     } = params;
 
+    // Only a '\n' can be a part of the borrow, any other line
+    // break must be normalized to one
+    if *can_borrow && lines > 0 && style != ChompStyle::Strip && !check!(~base, end => b'\n')
+    {
+        scratch.extend_from_slice(base[start..end].as_bytes());
+        end = scratch.len();
+
+        *can_borrow = false;
+    }
+
     if *can_borrow
     {
         match style
@@ -552,7 +562,7 @@ fn scan_chomp<'de>(
                 // include the first
                 if lines > 0
                 {
-                    end += widthOf!(~base[end..], 1);
+                    end += 1;
                 }
 
                 scalar = cow!(&base[start..end])
-- 
2.43.0


From 8589820df4dadbaf582e2eeaec6135655992c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 07/23] fix: block scalar lines of just the indentation are
 empty lines

They were kept as content, and so were folded as, or chomped like, a line of
text.
---
 src/scanner/scalar/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index bec3efd..dd21b1c 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -496,7 +496,9 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    // Note that a line only made of indentation is also empty
+    while (stats.column < indent && isWhiteSpace!(~buffer))
+        || (stats.column == indent && isBreak!(~buffer))
     {
         // Indentation space, chomp
         if check!(~buffer => b' ')
-- 
2.43.0


From b65303fb9f72745a2626eec0d79216ba3330a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 08/23] fix: do not fold more indented lines of block scalars

The line breaks around them are content, see YAML 1.2 section 8.1.3
---
 src/scanner/scalar/block.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index dd21b1c..b56a57b 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,10 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Was the last line more indented? That is, did its content
+    // start with whitespace
+    let mut more_indented = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -219,8 +223,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
-        // If its a folding ('>') block scalar
-        if fold
+        cache!(~buffer, 1, opts)?;
+        let last_indented = more_indented;
+        more_indented = isBlank!(~buffer);
+
+        // If its a folding ('>') block scalar, and neither line is
+        // more indented
+        if fold && !(last_indented || more_indented)
         {
             // Handle line joins as needed
             match lines
@@ -245,7 +254,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
                 },
             }
         }
-        // Otherwise simply append the collected newlines literally ('|')
+        // Otherwise simply append the collected newlines literally
         else
         {
             for _ in 0..lines
-- 
2.43.0


From 53dab1cca9113ad648fd195123ec5baa4b92070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 09/23] fix: block scalar headers end with their line

Any byte, the line break included, was allowed ahead of the second header, thus
a digit, '+' or '-' starting the next line was taken to be a header.
---
 src/scanner/scalar/block.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b56a57b..1cbf0f7 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -457,7 +457,9 @@ fn scan_headers(
     // than erroring
     match buffer.as_bytes()
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
+        [i @ b'0'..=b'9', ..]
+        | [b'+', i @ b'0'..=b'9', ..]
+        | [b'-', i @ b'0'..=b'9', ..] =>
         {
             indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
             skip += 1;
@@ -469,12 +471,12 @@ fn scan_headers(
     // Set the chomping behavior of the scalar, if required
     match buffer.as_bytes()
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        [c, ..] | [b'0'..=b'9', c, ..] if matches!(*c, b'+') =>
         {
             chomp = ChompStyle::Keep;
             skip += 1;
         },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        [c, ..] | [b'0'..=b'9', c, ..] if matches!(*c, b'-') =>
         {
             chomp = ChompStyle::Strip;
             skip += 1;
-- 
2.43.0


From 043cba363f0c97c8a11f535907aa9caafa9a8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 10/23] fix: restore the starting indent when the last
 collection ends

A collection at column 0 was only recognized in the first document of a stream.
---
 src/scanner/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..75fcf41 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -160,6 +160,9 @@ impl Context
             Some(entry) =>
             {
                 self.indent = entry.indent;
+                // Without any entries left we're back to the starting
+                // indent, and the next collection is a new root
+                self.started = !self.indents.is_empty();
 
                 f(self.indent)?;
 
-- 
2.43.0


From c677471d77c53454fd482a93d6677024d318cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 11/23] fix: lazily scanned double quoted scalars ending in an
 escaped backslash

The backslash was taken to escape the closing quote.
---
 src/scanner/scalar/flow.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 01ecd0b..2b540a7 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -289,13 +289,19 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
-        if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+        // Check for the single quote escape, skipping it if found
+        if kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..])
         {
             advance!(buffer, :stats, 2);
         }
+        // Skip any escaped character, lest an escaped backslash is
+        // seen as escaping what follows it
+        else if kind == DoubleQuote
+            && check!(~buffer => [BACKSLASH, ..])
+            && !isBreak!(~buffer, 1)
+        {
+            advance!(buffer, :stats, 1 + widthOf!(~buffer, 1));
+        }
         // We're done, we hit the right quote
         else if (kind == SingleQuote && check!(~buffer => [SINGLE, ..]))
             || (kind == DoubleQuote && check!(~buffer => [DOUBLE, ..]))
-- 
2.43.0


From dd45f5b368ae6437f8239ffffd4d12350cb2c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 12/23] fix: do not assert that a single pair mapping is well
 formed

Malformed input such as [a: b c: d] paniced in debug builds; the next state
already returns the matching error.
---
 src/event/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 1320d00..e0de732 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -769,9 +769,7 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        let (start, end, _) = peek!(tokens)?;
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From f710f9b08041239a0ca3de7e896dbc724ae92293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 13/23] fix: end the event stream after an error

Iterating past an error repeated it forever, so that the documented
filter_map(Result::ok) never finished, or continued from an inconsistent state.
---
 src/event/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e0de732..e279d92 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,18 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = match self.state_transition(tokens)
+            {
+                Ok(event) => event,
+                // The stream cannot be continued past an error, neither
+                // the tokens nor our state are consistent anymore
+                Err(e) =>
+                {
+                    self.done = true;
+
+                    return Err(e);
+                },
+            };
         }
 
         Ok(event)
-- 
2.43.0


From 5a59994a2867e86853f4dd6b26a3459ccce26015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 14/23] fix: characters split across reads of an owned source

A chunk ending in the middle of a multi-byte character was reported as invalid
UTF8.
---
 src/reader/owned.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..c351d19 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -161,6 +161,10 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
+    // Leading bytes of a character that was split by the last
+    // read
+    partial: Vec<u8>,
+
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
 }
@@ -177,6 +181,8 @@ impl Impl
             head: String::new(),
             tail: Vec::new(),
 
+            partial: Vec::new(),
+
             source,
             exhausted: false,
         }
@@ -201,9 +207,24 @@ impl Impl
             new.extend_from_slice(&self.head.as_bytes()[mark..]);
         }
 
+        new.append(&mut self.partial);
+
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // Hold back a trailing, incomplete character until the next
+        // read
+        if !self.exhausted
+        {
+            if let Err(e) = std::str::from_utf8(&new)
+            {
+                if e.error_len().is_none()
+                {
+                    self.partial = new.split_off(e.valid_up_to());
+                }
+            }
+        }
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
-- 
2.43.0


From 74e53f78cc3736b5c673e011455154f7afb56b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 15/23] fix: evaluate deferred block scalars as complete

The deferred slice kept the extendable flag of the read it was found by, and
evaluating it then failed at its end.
---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 1cbf0f7..37eea98 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -431,7 +431,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 66172893766f5ae6c6b062fad7b21e8eceac78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 16/23] fix: an adjacent flow indicator ends an implicit flow
 key

Inside a flow collection a plain scalar ends at a ':' that is followed
by a flow indicator ('{a:}', '[a:, b]', see example 7.15 of the YAML
1.2 spec). The ':' was taken into the scalar and the key lost.
---
 src/scanner/scalar/plain.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index d6bb09f..acbcddc 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -121,8 +121,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,' ':[' ':]' ':{' ':}'     -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if is_value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if is_value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -313,8 +314,9 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,' ':[' ':]' ':{' ':}'     -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if is_value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -325,14 +327,16 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if is_value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 // Include the whitespace character if there is one, as it
                 // is required to find the end of the scalar
+                // The same holds for a flow indicator after a ':'
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
                     true => 1 + widthOf!(~buffer, 1),
+                    false if check!(~buffer => b':') && flow_indicator(buffer, 1) => 2,
                     false => 1,
                 };
 
@@ -405,6 +409,13 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
     Ok((lazy, advance))
 }
 
+/// Have we hit a ':' which separates a key from its value?
+fn is_value_indicator(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1))
+}
+
 /// Have we hit a flow context scalar end indicator?
 fn flow_indicator(buffer: &str, offset: usize) -> bool
 {
-- 
2.43.0


From 15b04c25c4673260790c42f17b6199958527fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 17/23] fix: tokens indented past a zero indented sequence
 belong to it

Any token on a line after the entry indicator ended a zero indented
sequence, whatever its column and even inside a flow collection, so
'a:\n-\n  b: c' lost its structure. Only a token at the indentation of the
sequence which is not a block entry ends it.
---
 src/scanner/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..c9fa918 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -140,7 +140,7 @@ impl Scanner
 
         // Handle indentation unrolling
         self.unroll_indent(tokens, self.stats.column)?;
-        self.pop_zero_indent_sequence(*base, tokens)?;
+        self.pop_zero_indent_sequence(opts, *base, tokens)?;
 
         // Is it the end of a stream?
         if base.is_empty() || self.state == StreamState::Done
@@ -818,23 +818,32 @@ impl Scanner
     /// sequences
     fn pop_zero_indent_sequence<'de>(
         &mut self,
+        opts: Flags,
         base: &'de str,
         tokens: &mut Tokens<'de>,
     ) -> Result<()>
     {
         if let Some(entry) = self.context.indents().last()
         {
+            // A block entry is a '-' followed by whitespace
+            cache!(~base, 2, opts)?;
+
             /*
              * Pop an indentation level if, and only if:
              * 1. Current line != entry's line
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. The current token is part of the block
+             *    context, at the sequence's indentation. Further
+             *    indented tokens belong to the current entry
              */
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && self.context.is_block()
+                && entry.indent() == self.stats.column
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From 01f4423980c46262d98ef8fe3cd5605e35f91bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 18/23] fix: root plain scalars continue on unindented lines

The starting indent counts as -1, so the lines of a plain scalar outside
of any collection need no indentation ('a\nb' is 'a b').
---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 75fcf41..77d8b9c 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -318,7 +318,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // The starting indent lies one before the first column
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From e005414bfa7386732bcfb4002915a9c523d6c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 19/23] fix: tag directive prefixes may contain ',' '[' and ']'

They are made of the same characters as verbatim tags, and the most common
prefix ('tag:yaml.org,2002:') was rejected.
---
 src/scanner/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 894894c..bce84b8 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -115,7 +115,7 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
-    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
+    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
@@ -293,7 +293,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 }
                 advance!(buffer, :stats, 1);
             },
-            // Further characters are allowed in verbatim tags
+            // Further characters are allowed in verbatim tags, and directive prefixes
             [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
             {
                 if !*can_borrow
-- 
2.43.0


From 7e9e0ae137fa97e641ff87a8cd04f87fc042ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 20/23] fix: %TAG directives may override the default handles

The defaults were already present when the directives were read, so
redefining '!' or '!!' was reported as a duplicate.
---
 src/event/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e279d92..3b1b54f 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1121,7 +1121,8 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    // Note the defaults are added last, as they may be overridden
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From c7e72443298238b7b5be4424bfeb6e61717264f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 21/23] fix: anchors and aliases may be followed by any
 whitespace

Only ' ' and LF were accepted after the name, so anchors could not end a
line in a CRLF document, precede a tab, or end the stream.
---
 src/scanner/anchor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..5e6594c 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -42,10 +42,13 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // also check against a list of valid starting
     // tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From 180524897b445e3104ba5f704e05a5e9b926095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 22/23] fix: the end of the input after a block scalar header
 is no line break

The line count of the position went up by one although no line break
was read.
---
 src/scanner/scalar/block.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 37eea98..edd27fb 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -144,8 +144,11 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         return Err(ScanError::InvalidBlockScalar);
     }
 
-    // Eat the line break
-    advance!(buffer, :local_stats, @line);
+    // Eat the line break (if not EOF)
+    if isBreak!(~buffer)
+    {
+        advance!(buffer, :local_stats, @line);
+    }
 
     // Set the indent explicitly if defined, otherwise detect
     // from the indentation level
@@ -363,8 +366,11 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         return Err(ScanError::InvalidBlockScalar);
     }
 
-    // Eat the line break
-    advance!(buffer, :local_stats, @line);
+    // Eat the line break (if not EOF)
+    if isBreak!(~buffer)
+    {
+        advance!(buffer, :local_stats, @line);
+    }
 
     // Set the indent explicitly if defined, otherwise detect
     // from the indentation level
-- 
2.43.0


From e9894637974de5a0e20060034c5934ef259f1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:00 +0000
Subject: [PATCH 23/23] fix: accept '#' in tags and tag prefixes

The hash is one of the characters a tag URI may contain. A verbatim tag or
prefix with a fragment was rejected, and a shorthand tag lost everything
from the hash on.
---
 src/scanner/tag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index bce84b8..d96031d 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -278,6 +278,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
             | [b'A'..=b'Z', ..]
             | [b'a'..=b'z', ..]
             | [b'!', ..]
+            | [b'#', ..]
             | [b'$', ..]
             | [b':', ..]
             | [b';', ..]
-- 
2.43.0

