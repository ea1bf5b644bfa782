From 28f7b394e310b742226ed35ce58970f669e61335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:48 +0000
Subject: [PATCH 01/18] fix: escape a dot at the very start of the message

The transparency procedure (RFC 5321, section 4.5.2) applies to the first line
as well. A message starting with ".\r\n" ended the data right away and the rest
of it was taken as SMTP commands.
---
 src/codec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..acad2c2 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,11 +6,18 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
 
+impl Default for ClientCodec {
+    fn default() -> Self {
+        // The message starts at the beginning of a line, so its first dot has to be escaped too.
+        ClientCodec { escape_count: 2 }
+    }
+}
+
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-- 
2.43.0


From 3cfa4c2956e3646a6c4b590994515893cd9c9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 02/18] fix: recognize CRLF after an extra CR when escaping
 dots

"\r\r\n." contains CRLF and a dot, but the second CR was not taken as the
possible start of a CRLF, so the dot was left unescaped and the message could
end the data early.
---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index acad2c2..b807a73 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -46,7 +46,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From 937468aae43a91234cb7a06326b38d935a273b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 03/18] fix: do not add an empty line or a second end of data
 to messages

The CRLF that ends the last line is part of the end of data sequence, an extra
one MUST NOT be added (RFC 5321, section 4.1.1.4). An empty message was even
terminated twice: the server took the second terminator as two more commands,
and its replies to these were taken as those to the next commands.
---
 src/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..0b4d7d2 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,8 +108,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
-            self.inner.write_all(b"\r\n.\r\n").await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
+            // An empty frame ends the message, completing its last line if needed.
+            codec.encode(&[], &mut self.inner).await?;
             self.inner.flush().await?;
             Ok(())
         }
-- 
2.43.0


From ad6be8c13c0d5be55e98a175bd8fba13da05114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:06 +0000
Subject: [PATCH 04/18] fix: accept replies without text

The text of a reply is optional and a client must accept a bare code
(RFC 5321, section 4.2), but "250\r\n" was reported as a parsing error.
---
 src/response.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..af362a5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, opt},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -228,7 +228,7 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         tag("\r\n"),
     )))(i)?;
     let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+        tuple((parse_code, opt(preceded(tag(" "), take_until("\r\n")))))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
@@ -244,7 +244,7 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         .into_iter()
         .map(|(_, text, _)| text)
         .collect::<Vec<_>>();
-    lines.push(last_line);
+    lines.push(last_line.unwrap_or_default());
 
     Ok((
         i,
-- 
2.43.0


From 6d40a8b78e2edaad431f2e41bab535f973827bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:12 +0000
Subject: [PATCH 05/18] fix: recognize EHLO keywords in any letter case

RFC 5321, section 4.1.1.1: EHLO keywords MUST always be recognized and processed
in a case-insensitive manner.
---
 src/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..206f955 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -149,7 +149,9 @@ impl ServerInfo {
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            // Keywords are case-insensitive.
+            let keyword = split.first().map(|keyword| keyword.to_ascii_uppercase());
+            match keyword.as_deref() {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From 34e3e95563be1e9a375e3eb8a4b00de6379d7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:18 +0000
Subject: [PATCH 06/18] fix: do not take the server name in the EHLO reply for
 a keyword

The first line of the reply is "domain [greeting]" (RFC 5321, section 4.1.1.1).
---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 206f955..f6ea260 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,7 +143,8 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line has the name of the server and a greeting, but no keyword.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
-- 
2.43.0


From f304953a95e1b91e1be4f06695bc2bb170a2e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:23 +0000
Subject: [PATCH 07/18] fix: write two hexadecimal digits for each character
 escaped in xtext

RFC 3461, section 4. Line feed was written as "+A", so that "\nB" was encoded
as "+AB", which means something else.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..cf97f09 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -17,7 +17,7 @@ impl<'a> Display for XText<'a> {
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From a4a0785631da2d70b2f72fced6bd60d8f1ccc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:29 +0000
Subject: [PATCH 08/18] fix: escape DEL in xtext

It is not an xchar (RFC 3461, section 4).
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index cf97f09..6561599 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,7 +11,7 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7F') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
-- 
2.43.0


From 2433791064244ba42476df53c6cc7c858d6ec865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 09/18] fix: tell completion replies from intermediate ones

After DATA, the message may only be sent on a 3yz reply: on a 2yz one the server
is not waiting for a message and takes its lines as commands. Likewise neither a
message nor a login is accepted before a 2yz reply.
---
 src/smtp_client.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..2420153 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -6,6 +6,7 @@ use crate::authentication::{Credentials, Mechanism};
 use crate::commands::*;
 use crate::error::{Error, SmtpResult};
 use crate::extension::{ClientId, Extension, MailBodyParameter, MailParameter, ServerInfo};
+use crate::response::{Response, Severity};
 use crate::stream::SmtpStream;
 use crate::SendableEmail;
 
@@ -89,6 +90,16 @@ impl SmtpClient {
     }
 }
 
+/// Checks that a positive response is of the kind required, as it may be an intermediate one in
+/// place of a completion, or the other way round.
+fn require(severity: Severity, response: Response) -> SmtpResult {
+    if response.code.severity == severity {
+        Ok(response)
+    } else {
+        Err(response.into())
+    }
+}
+
 /// Structure that implements the high level SMTP client
 #[derive(Debug)]
 pub struct SmtpTransport<S: BufRead + Write + Unpin> {
@@ -190,7 +201,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         if challenges == 0 {
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
-            Ok(response)
+            require(Severity::PositiveCompletion, response)
         }
     }
 
@@ -231,9 +242,11 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.send_command(DataCommand).await?;
             sent_commands += 1;
 
-            for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+            let mut response = self.stream.read_response().await?;
+            for _ in 1..sent_commands {
+                response = self.stream.read_response().await?;
             }
+            require(Severity::PositiveIntermediate, response)?;
         } else {
             self.stream
                 .command(MailCommand::new(
@@ -252,10 +265,15 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             }
 
             // Data
-            self.stream.command(DataCommand).await?;
+            let response = self.stream.command(DataCommand).await?;
+            require(Severity::PositiveIntermediate, response)?;
         }
 
-        let res = self.stream.message(email.message()).await;
+        let res = self
+            .stream
+            .message(email.message())
+            .await
+            .and_then(|response| require(Severity::PositiveCompletion, response));
 
         // Message content
         if let Ok(result) = &res {
-- 
2.43.0


From 5f8fa91271c78af4765b327e60c8e33f8d3b6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 10/18] fix: read the whole message before starting a
 transaction

The message used to be read after the server had accepted DATA. If reading
failed, send returned, but the server kept waiting for the message and took the
next commands sent on the connection for its content.
---
 src/smtp_client.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 2420153..4a6b679 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -11,9 +11,9 @@ use crate::stream::SmtpStream;
 use crate::SendableEmail;
 
 #[cfg(feature = "runtime-async-std")]
-use async_std::io::{BufRead, Write};
+use async_std::io::{BufRead, ReadExt, Write};
 #[cfg(feature = "runtime-tokio")]
-use tokio::io::{AsyncBufRead as BufRead, AsyncWrite as Write};
+use tokio::io::{AsyncBufRead as BufRead, AsyncReadExt, AsyncWrite as Write};
 
 /// Contains client configuration
 #[derive(Debug)]
@@ -207,6 +207,12 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        let envelope = email.envelope().clone();
+
+        // Read the message first, so that no transaction is left open if this fails.
+        let mut message = Vec::new();
+        email.message().read_to_end(&mut message).await?;
+
         // Mail
         let mut mail_options = vec![];
 
@@ -223,15 +229,12 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         if pipelining {
             self.stream
-                .send_command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
+                .send_command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
             let mut sent_commands = 1;
 
             // Recipient
-            for to_address in email.envelope().to() {
+            for to_address in envelope.to() {
                 self.stream
                     .send_command(RcptCommand::new(to_address.clone(), vec![]))
                     .await?;
@@ -249,14 +252,11 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             require(Severity::PositiveIntermediate, response)?;
         } else {
             self.stream
-                .command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
+                .command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
 
             // Recipient
-            for to_address in email.envelope().to() {
+            for to_address in envelope.to() {
                 self.stream
                     .command(RcptCommand::new(to_address.clone(), vec![]))
                     .await?;
@@ -271,7 +271,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         let res = self
             .stream
-            .message(email.message())
+            .message(message.as_slice())
             .await
             .and_then(|response| require(Severity::PositiveCompletion, response));
 
-- 
2.43.0


From 5d3405e9182318bd117154895bbb975cf9c8764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 11/18] fix: keep a pipelined connection in sync after a
 rejection

If a pipelined command was rejected, the replies to the commands after it were
left unread, and taken for those to the commands sent next. If the server had
accepted some recipient and DATA, it took the next commands and the next message
for the content of the rejected one, and delivered that to its recipients.

Read all the replies. If the server waits for the message after a rejection,
refuse to send anything else on the connection.
---
 src/smtp_client.rs | 51 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 4a6b679..ba8b09f 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -109,6 +109,8 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
     client_info: SmtpClient,
     /// Low level client
     stream: SmtpStream<S>,
+    /// Set while the server does not expect a command or owes replies to pipelined commands.
+    out_of_sync: bool,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
@@ -130,6 +132,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             server_info,
             client_info: builder,
             stream,
+            out_of_sync: false,
         };
         Ok(transport)
     }
@@ -160,18 +163,31 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             return Err(From::from("server does not support STARTTLS"));
         }
 
+        self.ensure_in_sync()?;
         self.stream.command(StarttlsCommand).await?;
 
         // Return the stream, so the caller can upgrade it to TLS.
         Ok(self.stream.into_inner())
     }
 
+    /// Checks that the next reply will be the one to the next command.
+    fn ensure_in_sync(&self) -> Result<(), Error> {
+        if self.out_of_sync {
+            return Err(From::from(
+                "connection is left in the middle of a transaction",
+            ));
+        }
+
+        Ok(())
+    }
+
     fn supports_feature(&self, keyword: Extension) -> bool {
         self.server_info.supports_feature(keyword)
     }
 
     /// Closes the SMTP transaction if possible.
     pub async fn quit(&mut self) -> Result<(), Error> {
+        self.ensure_in_sync()?;
         self.stream.command(QuitCommand).await?;
 
         Ok(())
@@ -179,6 +195,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an AUTH command with the given mechanism, and handles challenge if needed
     pub async fn auth(&mut self, mechanism: Mechanism, credentials: &Credentials) -> SmtpResult {
+        self.ensure_in_sync()?;
+
         // TODO
         let mut challenges = 10;
         let mut response = self
@@ -207,6 +225,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        self.ensure_in_sync()?;
+
         let envelope = email.envelope().clone();
 
         // Read the message first, so that no transaction is left open if this fails.
@@ -228,6 +248,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
+            self.out_of_sync = true;
+
             self.stream
                 .send_command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
@@ -245,11 +267,32 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.send_command(DataCommand).await?;
             sent_commands += 1;
 
-            let mut response = self.stream.read_response().await?;
-            for _ in 1..sent_commands {
-                response = self.stream.read_response().await?;
+            // All replies have to be read (RFC 2920, section 3.1), so that none of them is taken
+            // for the reply to a later command.
+            let mut rejection = None;
+            let mut data_response = None;
+            for _ in 0..sent_commands {
+                match self.stream.read_response().await {
+                    Ok(response) => data_response = Some(response),
+                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
+                        data_response = None;
+                        rejection.get_or_insert(err);
+                    }
+                    Err(err) => return Err(rejection.unwrap_or(err)),
+                }
             }
-            require(Severity::PositiveIntermediate, response)?;
+            let go_ahead = data_response
+                .map(|response| require(Severity::PositiveIntermediate, response))
+                .transpose();
+
+            // If the server waits for the message in spite of a rejection, nothing can be sent any
+            // more: some of the recipients may have been accepted, but should not get it.
+            self.out_of_sync = rejection.is_some() && matches!(go_ahead, Ok(Some(_)));
+
+            if let Some(err) = rejection {
+                return Err(err);
+            }
+            go_ahead?;
         } else {
             self.stream
                 .command(MailCommand::new(envelope.from().cloned(), mail_options))
-- 
2.43.0


From 1f5988f88700448c942270242b8a95a3c23d50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 12/18] fix: abort a failed transaction before starting another
 one

MAIL MUST NOT be sent if a transaction is already open (RFC 5321, section 4.1.4),
nor AUTH (RFC 4954, section 4). After a recipient had been rejected, the server
refused the next message as a nested MAIL command.
---
 src/smtp_client.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index ba8b09f..dfa46c7 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -111,6 +111,8 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
     stream: SmtpStream<S>,
     /// Set while the server does not expect a command or owes replies to pipelined commands.
     out_of_sync: bool,
+    /// Set while a transaction that has not been completed may be open on the server.
+    in_transaction: bool,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
@@ -133,6 +135,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             client_info: builder,
             stream,
             out_of_sync: false,
+            in_transaction: false,
         };
         Ok(transport)
     }
@@ -181,6 +184,17 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         Ok(())
     }
 
+    /// Aborts the last transaction if it failed, as neither another transaction nor authentication
+    /// is permitted during a transaction.
+    async fn abort_transaction(&mut self) -> Result<(), Error> {
+        if self.in_transaction {
+            self.stream.command(RsetCommand).await?;
+            self.in_transaction = false;
+        }
+
+        Ok(())
+    }
+
     fn supports_feature(&self, keyword: Extension) -> bool {
         self.server_info.supports_feature(keyword)
     }
@@ -196,6 +210,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
     /// Sends an AUTH command with the given mechanism, and handles challenge if needed
     pub async fn auth(&mut self, mechanism: Mechanism, credentials: &Credentials) -> SmtpResult {
         self.ensure_in_sync()?;
+        self.abort_transaction().await?;
 
         // TODO
         let mut challenges = 10;
@@ -233,6 +248,9 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         let mut message = Vec::new();
         email.message().read_to_end(&mut message).await?;
 
+        self.abort_transaction().await?;
+        self.in_transaction = true;
+
         // Mail
         let mut mail_options = vec![];
 
@@ -312,11 +330,9 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             require(Severity::PositiveIntermediate, response)?;
         }
 
-        let res = self
-            .stream
-            .message(message.as_slice())
-            .await
-            .and_then(|response| require(Severity::PositiveCompletion, response));
+        let res = self.stream.message(message.as_slice()).await;
+        self.in_transaction = false;
+        let res = res.and_then(|response| require(Severity::PositiveCompletion, response));
 
         // Message content
         if let Ok(result) = &res {
-- 
2.43.0


From 624b563ade08d47b002e6f46afaade5c351cf8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 13/18] fix: cancel authentication if a challenge cannot be
 answered

The server kept waiting for an answer and took the next command for it: after an
XOAUTH2 error, which is sent as a challenge, a following AUTH PLAIN failed.
---
 src/smtp_client.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index dfa46c7..ebb7981 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -221,23 +221,33 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         while challenges > 0 && response.has_code(334) {
             challenges -= 1;
-            response = self
-                .stream
-                .command(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+            let command = AuthCommand::new_from_response(mechanism, credentials.clone(), &response);
+            response = match command {
+                Ok(command) => self.stream.command(command).await?,
+                Err(err) => {
+                    self.cancel_auth().await;
+                    return Err(err);
+                }
+            };
         }
 
         if challenges == 0 {
+            if response.has_code(334) {
+                self.cancel_auth().await;
+            }
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             require(Severity::PositiveCompletion, response)
         }
     }
 
+    /// Answers a challenge with a cancellation, so that the server does not take the next command
+    /// for the answer (RFC 4954, section 4).
+    async fn cancel_auth(&mut self) {
+        // The server always rejects the AUTH command then, there is nothing to do about it.
+        let _ = self.stream.command("*\r\n").await;
+    }
+
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
         self.ensure_in_sync()?;
-- 
2.43.0


From d1d8654f7bbdc23c2514a3251607b79e95009e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 14/18] fix: accept a login completed by the answer to the last
 challenge

The limit of challenges is exceeded only if the server asks for another one.
---
 src/smtp_client.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index ebb7981..b283578 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -231,10 +231,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             };
         }
 
-        if challenges == 0 {
-            if response.has_code(334) {
-                self.cancel_auth().await;
-            }
+        if response.has_code(334) {
+            self.cancel_auth().await;
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             require(Severity::PositiveCompletion, response)
-- 
2.43.0


From 6bbdb1a63c675db76ea5aa2a8fd7fe265aad7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 15/18] fix: limit the number of unread replies to pipelined
 commands

With very many recipients, the replies did not fit into the buffers of the
connection: the server stopped reading until they were read, and the client and
the server waited for each other (RFC 2920, section 3.1).
---
 src/smtp_client.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index b283578..019fa42 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -15,6 +15,12 @@ use async_std::io::{BufRead, ReadExt, Write};
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncBufRead as BufRead, AsyncReadExt, AsyncWrite as Write};
 
+/// How many responses to pipelined commands are left unread at most.
+///
+/// If they do not fit into the buffers of the connection, the server stops reading until they are
+/// read, and both sides wait for each other (RFC 2920, section 3.1).
+const MAX_UNREAD_RESPONSES: usize = 100;
+
 /// Contains client configuration
 #[derive(Debug)]
 pub struct SmtpClient {
@@ -246,6 +252,21 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         let _ = self.stream.command("*\r\n").await;
     }
 
+    /// Reads the reply to a pipelined command, and keeps it if it is the first rejection.
+    async fn read_pipelined(
+        &mut self,
+        rejection: &mut Option<Error>,
+    ) -> Result<Option<Response>, Error> {
+        match self.stream.read_response().await {
+            Ok(response) => Ok(Some(response)),
+            Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
+                rejection.get_or_insert(err);
+                Ok(None)
+            }
+            Err(err) => Err(rejection.take().unwrap_or(err)),
+        }
+    }
+
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
         self.ensure_in_sync()?;
@@ -280,9 +301,14 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 .send_command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
             let mut sent_commands = 1;
+            let mut rejection = None;
 
             // Recipient
             for to_address in envelope.to() {
+                if sent_commands == MAX_UNREAD_RESPONSES {
+                    self.read_pipelined(&mut rejection).await?;
+                    sent_commands -= 1;
+                }
                 self.stream
                     .send_command(RcptCommand::new(to_address.clone(), vec![]))
                     .await?;
@@ -295,17 +321,9 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
             // All replies have to be read (RFC 2920, section 3.1), so that none of them is taken
             // for the reply to a later command.
-            let mut rejection = None;
             let mut data_response = None;
             for _ in 0..sent_commands {
-                match self.stream.read_response().await {
-                    Ok(response) => data_response = Some(response),
-                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
-                        data_response = None;
-                        rejection.get_or_insert(err);
-                    }
-                    Err(err) => return Err(rejection.unwrap_or(err)),
-                }
+                data_response = self.read_pipelined(&mut rejection).await?;
             }
             let go_ahead = data_response
                 .map(|response| require(Severity::PositiveIntermediate, response))
-- 
2.43.0


From 2b7380d89546314c3be1abca776c4ae8ee365427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 16/18] fix: do not use a connection any more once a reply is
 missing

After an operation that failed or was abandoned before the reply to its last command was
received (a read timeout, an unparsable reply, a cancelled send), the next operation took the
late reply for its own, so that a login could succeed with the reply to RSET.
---
 src/smtp_client.rs | 10 +++-------
 src/stream.rs      | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 019fa42..0ccb470 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -115,7 +115,7 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
     client_info: SmtpClient,
     /// Low level client
     stream: SmtpStream<S>,
-    /// Set while the server does not expect a command or owes replies to pipelined commands.
+    /// Set if the server waits for a message instead of a command.
     out_of_sync: bool,
     /// Set while a transaction that has not been completed may be open on the server.
     in_transaction: bool,
@@ -181,10 +181,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Checks that the next reply will be the one to the next command.
     fn ensure_in_sync(&self) -> Result<(), Error> {
-        if self.out_of_sync {
-            return Err(From::from(
-                "connection is left in the middle of a transaction",
-            ));
+        if self.out_of_sync || !self.stream.is_in_sync() {
+            return Err(From::from("connection is out of sync"));
         }
 
         Ok(())
@@ -295,8 +293,6 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
-            self.out_of_sync = true;
-
             self.stream
                 .send_command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
diff --git a/src/stream.rs b/src/stream.rs
index 0b4d7d2..0e804fb 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -22,12 +22,17 @@ use tokio::io::{
 pub struct SmtpStream<S: BufRead + Write + Unpin> {
     /// Inner stream.
     inner: S,
+    /// Number of commands which have not been completely answered.
+    unanswered: usize,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Creates new SMTP stream.
     pub fn new(stream: S) -> Self {
-        Self { inner: stream }
+        Self {
+            inner: stream,
+            unanswered: 0,
+        }
     }
 
     /// Returns inner stream.
@@ -35,6 +40,13 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         self.inner
     }
 
+    /// Whether the reply to each command has been received.
+    ///
+    /// If not, the next reply cannot be told from the missing ones.
+    pub fn is_in_sync(&self) -> bool {
+        self.unanswered == 0
+    }
+
     /// Sends EHLO command and returns server response.
     pub async fn ehlo(&mut self, client_id: ClientId) -> SmtpResult {
         // Extended Hello
@@ -50,6 +62,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Sends the given SMTP command to the server without waiting for response.
     pub async fn send_command(&mut self, command: impl Display) -> Result<(), Error> {
+        self.unanswered += 1;
         self.write(command.to_string().as_bytes()).await?;
         Ok(())
     }
@@ -79,6 +92,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
+                    self.unanswered = self.unanswered.saturating_sub(1);
                     if response.is_positive() {
                         return Ok(response);
                     }
@@ -100,6 +114,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Sends the message content.
     pub(crate) async fn message<T: Read + Unpin>(&mut self, message: T) -> SmtpResult {
+        self.unanswered += 1;
         let mut codec = ClientCodec::new();
 
         let mut message_reader = BufReader::new(message);
-- 
2.43.0


From 2c787df02069cbac4e2dd6f54b72aa0d3727d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 17/18] fix: take a reply cut off after its code for an
 incomplete one

The end of the connection in the middle of a reply is an I/O error.
---
 src/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index af362a5..36b2843 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map, opt},
+    combinator::{map, opt},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -229,7 +229,7 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
     )))(i)?;
     let (i, (last_code, last_line)) =
         tuple((parse_code, opt(preceded(tag(" "), take_until("\r\n")))))(i)?;
-    let (i, _) = complete(tag("\r\n"))(i)?;
+    let (i, _) = tag("\r\n")(i)?;
 
     // Check that all codes are equal.
     if !lines.iter().all(|(code, _, _)| *code == last_code) {
-- 
2.43.0


From 5ba662ff837fc36a8c5856eba2ee10f0cef6320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 18/18] fix: do not panic if an I/O error occurs within a reply

With debug assertions, read_line of async-std panics in this case.
---
 src/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 0e804fb..ec46e48 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -85,10 +85,15 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         let mut buffer = String::with_capacity(100);
 
         loop {
-            let read = reader.read_line(&mut buffer).await?;
+            // `read_line` of async-std panics if an I/O error occurs within a line.
+            let mut line = Vec::new();
+            let read = reader.read_until(b'\n', &mut line).await?;
             if read == 0 {
                 break;
             }
+            let line = std::str::from_utf8(&line)
+                .map_err(|err| std::io::Error::new(std::io::ErrorKind::InvalidData, err))?;
+            buffer.push_str(line);
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
-- 
2.43.0

