From 34bf4fa2b6c79f25a84ac4c86ab8fac672c470e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 01/82] fix: CopySender counts each file of the local directory
 once

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From e01ca8788421098db5c4ae674a8b28f4e3b1f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 02/82] fix: CopySender preserves relative paths for any local
 and remote directory

---
 impactutils/transfer/copysender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..799b1a3 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            relative_file = os.path.relpath(local_file, local_folder)
+            remote_file = os.path.join(remote_folder, relative_file)
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
-- 
2.43.0


From 6eceac7d0b7eb0bd5b99a81a0d882d39d8aa11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 03/82] fix: Sender reports a missing directory as
 FileNotFoundError, and addFiles works

---
 impactutils/transfer/sender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..5850659 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -65,7 +65,7 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
             self._local_files = local_files
         else:
@@ -82,7 +82,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
@@ -90,7 +90,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From 48be77921303bc1ac683746dafcf44f67d3a597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 04/82] fix: FTPSender.send raises when a file of the local
 directory cannot be sent

---
 impactutils/transfer/ftpsender.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..f0da8b6 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,19 +83,16 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
-- 
2.43.0


From 08ed72122ce6488b3e36ee61b526c0bbe972195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 05/82] fix: FTPSender preserves relative paths for any local
 directory

---
 impactutils/transfer/ftpsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f0da8b6..8aef7e0 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -225,8 +225,8 @@ class FTPSender(Sender):
             ftp.cwd(remote_folder)
             self.__sendfile(filename, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            local_parts = os.path.relpath(
+                local_file, local_folder).split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
-- 
2.43.0


From 615b400e060eaf44aec94cfebe2da56325cb84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 06/82] fix: SecureSender preserves relative paths for any
 local and remote directory

---
 impactutils/transfer/securesender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..b1c3ed9 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            relative_file = os.path.relpath(local_file, local_folder)
+            remote_file = os.path.join(remote_folder, relative_file)
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From f2be8088bcd514e1733f8d922e3be1c039d738e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 07/82] fix: SecureSender quotes paths and cancel text in
 remote shell commands

---
 impactutils/transfer/securesender.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b1c3ed9..6380a99 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -4,6 +4,7 @@
 import os.path
 import datetime
 import getpass
+import shlex
 
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
@@ -122,9 +123,10 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
-        echo_cmd = f'echo {cancel_content} > {cancelfile}'
+        text = shlex.quote(cancel_content or '')
+        echo_cmd = f"printf '%s\\n' {text} > {shlex.quote(cancelfile)}"
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        chk_cmd = f'[ -e {cancelfile} ];echo $?'
+        chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
         if not exists:
@@ -217,7 +219,8 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {remote_tmp_file} {remote_file}'
+        rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
+                      f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
 
     def _check_remote_folder(self, ssh, remote_folder):
@@ -231,10 +234,10 @@ class SecureSender(Sender):
             Tuple with two booleans -- (does a file or directory of this name
             exist, is it a directory?)
         """
-        chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -e {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
         exists = not int(stdout.read().decode('utf-8').strip())
-        chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd2 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd2)
         isdir = not int(stdout.read().decode('utf-8').strip())
         return (exists, isdir)
@@ -251,15 +254,15 @@ class SecureSender(Sender):
             Boolean indicating success or failure.
         """
         exists, isdir = self._check_remote_folder(ssh, remote_folder)
-        chk_cmd1 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         if not isdir:
             if exists:
-                rm_cmd = f'rm {remote_folder}'
+                rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
-                mk_cmd = f'mkdir -p {remote_folder}'
+                mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
-- 
2.43.0


From 2e2b568dadd78e1c42b685c7f4255ed2bf54c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 08/82] fix: SecureSender.send raises when the remote rename
 fails

---
 impactutils/transfer/securesender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 6380a99..51988db 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -222,6 +222,9 @@ class SecureSender(Sender):
         rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
                       f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
+        if stdout.channel.recv_exit_status() != 0:
+            raise Exception(f'Could not rename {remote_tmp_file} '
+                            f'to {remote_file} on host {remote_host}')
 
     def _check_remote_folder(self, ssh, remote_folder):
         """Check to see if remote folder exists and is a directory.
-- 
2.43.0


From af456aba9e2c4ceb867e558fa641e7d15fdc0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 09/82] fix: SecureSender waits for remote commands before
 checking their effect

---
 impactutils/transfer/securesender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 51988db..749284b 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -126,6 +126,7 @@ class SecureSender(Sender):
         text = shlex.quote(cancel_content or '')
         echo_cmd = f"printf '%s\\n' {text} > {shlex.quote(cancelfile)}"
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
+        stdout.channel.recv_exit_status()  # wait for it to finish
         chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
@@ -262,11 +263,13 @@ class SecureSender(Sender):
             if exists:
                 rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
+                stdout.channel.recv_exit_status()  # wait for it to finish
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
                 mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
+                stdout.channel.recv_exit_status()  # wait for it to finish
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
                     return False
-- 
2.43.0


From b4f704a7e0a5be986f6defcffcfb05bfb585aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 10/82] fix: EmailSender can attach a local directory on its
 own

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..f1d450e 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -177,7 +177,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
+                        all_files = self.getAllLocalFiles()
                         for filename in all_files:
                             attachments.append(filename)
 
-- 
2.43.0


From 2519e6f39778279b18549958579498c880d4e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 11/82] fix: EmailSender terminates when max_bcc is 1

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index f1d450e..7ab3190 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max(1, max_bcc - 1))
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From e66cf23e555317f1c8fc7e289d86c917412a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 12/82] fix: EmailSender does not resend a message that a
 server has accepted

---
 impactutils/transfer/emailsender.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 7ab3190..7e72fa8 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -319,7 +319,10 @@ def _send_email(sender, address, msgtxt, smtp_servers):
             resp, servername = session.helo()
             session.sendmail(sender, address, msgtxt)
             messageSent = True
-            session.quit()
+            try:
+                session.quit()
+            except smtplib.SMTPException:
+                pass  # the message has been accepted already
             break
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
-- 
2.43.0


From 87dd5af9d1e49ce7e41d32560533bd218dff2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 13/82] fix: EmailSender keeps Bcc recipients out of the
 message

---
 impactutils/transfer/emailsender.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 7e72fa8..aba88e0 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,9 +187,6 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -372,8 +367,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From 54848f97eaea4f7c0ffeff97cbf19a5b798107e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 14/82] fix: EmailSender names zipped files by their path below
 the local directory

---
 impactutils/transfer/emailsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index aba88e0..acaf18f 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -168,8 +168,8 @@ class EmailSender(Sender):
                         if self._local_directory:
                             allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
-- 
2.43.0


From da27cbc6ef6f86fdc1022d980a5f029596b411ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 15/82] fix: EmailSender can send a message that is not ASCII
 along with attachments

---
 impactutils/transfer/emailsender.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index acaf18f..cc7db96 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -4,7 +4,6 @@ import shutil
 import smtplib
 import mimetypes
 from email import encoders
-from email.message import Message
 from email.mime.text import MIMEText
 from email.mime.audio import MIMEAudio
 from email.mime.base import MIMEBase
@@ -369,11 +368,7 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['Date'] = email.utils.formatdate()
 
     # insert the text into the email as a MIMEText part...
-    firstSubMsg = Message()
-    firstSubMsg["Content-type"] = "text/plain"
-    firstSubMsg["Content-transfer-encoding"] = "7bit"
-    firstSubMsg.set_payload(text)
-    outer.attach(firstSubMsg)
+    outer.attach(MIMEText(text))
 
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
-- 
2.43.0


From 2ec6b5ee00fc17a3ef013753eea5a2410fa72dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 16/82] fix: EmailSender.cancel returns a message describing
 what was done

---
 impactutils/transfer/emailsender.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index cc7db96..69db5bc 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -257,6 +257,8 @@ class EmailSender(Sender):
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
+        num_recipients = len(self._properties['recipients'])
+        return f'Cancel message sent to {num_recipients:d} recipients.'
 
 
 def _split_addresses(recipients, max_bcc, primary_recipient):
-- 
2.43.0


From 8477a904e547cc305d49d075243d986bd993fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:24 +0000
Subject: [PATCH 17/82] fix: PDLSender quotes what it passes on the PDL command
 line

---
 impactutils/transfer/pdlsender.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8732447..ba32066 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -3,6 +3,7 @@
 # stdlib imports
 import os.path
 import datetime
+import shlex
 
 # third party
 
@@ -97,7 +98,7 @@ class PDLSender(Sender):
 
     def _replace_required_properties(self, cmd):
         for propkey in self._required_properties:
-            propvalue = self._properties[propkey]
+            propvalue = shlex.quote(self._properties[propkey])
             cmd = cmd.replace('[' + propkey.upper() + ']', propvalue)
         return cmd
 
@@ -115,10 +116,11 @@ class PDLSender(Sender):
                     prop_nuggets.append(
                         f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
                 elif isinstance(propvalue, str):
-                    prop_nuggets.append(f'--property-{propkey}="{propvalue}"')
+                    prop_nuggets.append(
+                        f'--property-{propkey}={shlex.quote(propvalue)}')
                 else:
                     prop_nuggets.append(
-                        f'--property-{propkey}={str(propvalue)}')
+                        f'--property-{propkey}={shlex.quote(str(propvalue))}')
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', ' '.join(prop_nuggets))
         else:
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', '')
@@ -126,12 +128,13 @@ class PDLSender(Sender):
 
     def _replace_files(self, cmd):
         if self._local_files:
-            cmd = cmd.replace('[FILE]', f'--file={self._local_files[0]}')
+            filename = shlex.quote(self._local_files[0])
+            cmd = cmd.replace('[FILE]', f'--file={filename}')
         else:
             cmd = cmd.replace('[FILE]', '')
         if self._local_directory:
-            cmd = cmd.replace(
-                '[DIRECTORY]', f'--directory={self._local_directory}')
+            directory = shlex.quote(self._local_directory)
+            cmd = cmd.replace('[DIRECTORY]', f'--directory={directory}')
         else:
             cmd = cmd.replace('[DIRECTORY]', '')
 
-- 
2.43.0


From 282a05a331631e53f26e811b791144c836e87833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:54 +0000
Subject: [PATCH 18/82] fix: container listings do not name groups that hold
 nothing

---
 impactutils/io/smcontainers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..ea8dc22 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -84,14 +84,9 @@ class HDFContainerBase(object):
 
     def _getGroupPaths(self, dd):
         plist = []
-        try:
-            k = dd.keys()
-        except Exception:
-            return plist
-        for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+        for kk in dd.keys():
+            if isinstance(dd[kk], h5py.Group):
+                for path in self._getGroupPaths(dd[kk]):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
-- 
2.43.0


From 37054ea71f325c3c1282b012c5776ef6ef9c53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:54 +0000
Subject: [PATCH 19/82] fix: a failed set leaves nothing behind in the
 container

---
 impactutils/io/smcontainers.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index ea8dc22..6ded7b4 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -93,6 +93,20 @@ class HDFContainerBase(object):
                 plist.append(kk)
         return plist
 
+    def _createDataset(self, group, name, data, metadata=None, **kwargs):
+        # a dataset that cannot be stored completely is not left behind
+        exists = name in group
+        try:
+            dset = group.create_dataset(name, data=data, **kwargs)
+            if metadata:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+        except Exception:
+            if not exists and name in group:
+                del group[name]
+            raise
+        return dset
+
     #
     # Dictionaries
     #
@@ -133,7 +147,7 @@ class HDFContainerBase(object):
         """
         dict_group = self._makeGroup('dictionaries', groups)
         inbytes = json.dumps(dictionary).encode('utf-8')
-        dict_group.create_dataset(name, data=inbytes)
+        self._createDataset(dict_group, name, inbytes)
 
         return
 
@@ -200,12 +214,9 @@ class HDFContainerBase(object):
             raise LookupError(
                 f'{name} already exists in {self._hdfobj.filename}')
 
-        dset = array_group.create_dataset(name, data=array,
-                                          compression=compression)
-        if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
-        return dset
+        return self._createDataset(array_group, name, array,
+                                   metadata=metadata,
+                                   compression=compression)
 
     def getArray(self, groups, name):
         """
@@ -275,7 +286,7 @@ class HDFContainerBase(object):
         """
         string_group = self._makeGroup('strings', groups)
         inbytes = instring.encode('utf-8')
-        string_group.create_dataset(name, data=inbytes)
+        self._createDataset(string_group, name, inbytes)
         return
 
     def getString(self, groups, name):
-- 
2.43.0


From e64ab9370c240fbb692c5191ca26b7a8abc8fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:54 +0000
Subject: [PATCH 20/82] fix: ShakeMap containers keep the stored dictionary
 when its replacement is rejected

---
 impactutils/io/smcontainers.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 6ded7b4..067d5b9 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -342,6 +342,12 @@ class ShakeMapContainerBase(HDFContainerBase):
     Parent class for InputShakeMapContainer and OutputShakeMapContainer.
     """
 
+    def _replaceDictionary(self, name, dictionary):
+        json.dumps(dictionary)  # keep the old one if this cannot be stored
+        if name in self.getDictionaries():
+            self.dropDictionary([], name)
+        self.setDictionary([], name, dictionary)
+
     def setConfig(self, config):
         """
         Add the config as a dictionary to the HDF file.
@@ -350,9 +356,7 @@ class ShakeMapContainerBase(HDFContainerBase):
             config (dict--like): Dict--like object with configuration
                 information.
         """
-        if 'config' in self.getDictionaries():
-            self.dropDictionary([], 'config')
-        self.setDictionary([], 'config', config)
+        self._replaceDictionary('config', config)
 
     def getConfig(self):
         """
@@ -378,12 +382,10 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
-        self.setDictionary([], 'rupture', rupture)
+        self._replaceDictionary('rupture', rupture)
 
     def getRuptureDict(self):
         """
@@ -412,9 +414,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         if not isinstance(stationdict, dict):
             fmt = 'Input object is not a dictionary.'
             raise TypeError(fmt)
-        if 'stations_dict' in self.getDictionaries():
-            self.dropDictionary([], 'stations_dict')
-        self.setDictionary([], 'stations_dict', stationdict)
+        self._replaceDictionary('stations_dict', stationdict)
 
     def getStationDict(self):
         """
@@ -437,9 +437,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         Args:
             history_dict (dict): Dictionary containing version history. ??
         """
-        if 'version_history' in self.getDictionaries():
-            self.dropDictionary([], 'version_history')
-        self.setDictionary([], 'version_history', history_dict)
+        self._replaceDictionary('version_history', history_dict)
         return
 
     def getVersionHistory(self):
@@ -525,9 +523,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         Returns:
             nothing: Nothing.
         """
-        if 'info.json' in self.getDictionaries():
-            self.dropDictionary([], 'info.json')
-        self.setDictionary([], 'info.json', info)
+        self._replaceDictionary('info.json', info)
         return
 
     def getMetadata(self):
-- 
2.43.0


From c36d4c2379d557e24ccd9c9eec923a12264c77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:54 +0000
Subject: [PATCH 21/82] fix: ShakeMapOutputContainer stores an IMT completely
 or not at all

---
 impactutils/io/smcontainers.py | 46 +++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 067d5b9..d575196 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -561,13 +561,33 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'points':
             raise TypeError('Setting grid data in a file containing points')
-        self.setDataType('grid')
-
         sub_groups = ['imts', component, imt_name]
-        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
-        self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        self._setIMT(sub_groups, [('mean', imt_mean, mean_metadata),
+                                  ('std', imt_std, std_metadata)],
+                     compression)
+        self.setDataType('grid')
         return
 
+    def _setIMT(self, sub_groups, layers, compression):
+        # store all of the layers of an IMT, or none of them
+        _, component, imt_name = sub_groups
+        if component in self.getComponents(imt_name):
+            raise LookupError(f'{component}/{imt_name} already exists in '
+                              f'{self.getFileName()}')
+        try:
+            for name, array, metadata in layers:
+                self.setArray(sub_groups, name, array, metadata=metadata,
+                              compression=compression)
+        except Exception:
+            self._dropIMT(component, imt_name)
+            raise
+
+    def _dropIMT(self, component, imt_name):
+        imts = self._hdfobj['arrays']['imts']
+        del imts[component][imt_name]
+        if not len(imts[component]):
+            del imts[component]
+
     def getIMTGrids(self, imt_name, component):
         """
         Retrieve a Grid2D object and any associated metadata from the
@@ -637,7 +657,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -654,14 +673,13 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         # create data sets containing the longitudes, latitudes, and ids
 
-        self.setArray(sub_groups, 'lons', lons, compression=compression)
-        self.setArray(sub_groups, 'lats', lats, compression=compression)
-        self.setArray(sub_groups, 'ids', ids, compression=compression)
-
-        self.setArray(sub_groups, 'mean', imt_mean, metadata=mean_metadata,
-                      compression=compression)
-        self.setArray(sub_groups, 'std', imt_std, metadata=std_metadata,
-                      compression=compression)
+        self._setIMT(sub_groups, [('lons', lons, None),
+                                  ('lats', lats, None),
+                                  ('ids', ids, None),
+                                  ('mean', imt_mean, mean_metadata),
+                                  ('std', imt_std, std_metadata)],
+                     compression)
+        self.setDataType('points')
         return
 
     def getIMTArrays(self, imt_name, component):
@@ -779,4 +797,4 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
                 f'No IMTs stored in HDF file {self.getFileName()}')
         components = self.getComponents(imt_name)
         for comp in components:
-            del self._hdfobj['arrays']['imts'][comp][imt_name]
+            self._dropIMT(comp, imt_name)
-- 
2.43.0


From 08873680e7b313553567afe3532d194277c5051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:46 +0000
Subject: [PATCH 22/82] fix: HDFContainer returns DataFrame columns with the
 types they were stored with

---
 impactutils/io/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..ae6a06e 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -461,7 +461,8 @@ class HDFContainer(object):
         # now to make sure those are read back in with the appropriate
         # type
         clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
-        dataframe = pd.read_json(outstring, convert_dates=clist)
+        dataframe = pd.read_json(outstring, convert_dates=clist,
+                                 keep_default_dates=False, dtype=False)
 
         return dataframe
 
-- 
2.43.0


From 1f8726f4b4d5fc49d60196ae8050d3d694016668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:46 +0000
Subject: [PATCH 23/82] fix: a failed set leaves nothing behind in the
 deprecated container

---
 impactutils/io/container.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index ae6a06e..43b1604 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -92,6 +92,20 @@ class HDFContainer(object):
         """
         return self._hdfobj.filename
 
+    def _createDataset(self, group, name, data, metadata=None, **kwargs):
+        # a dataset that cannot be stored completely is not left behind
+        exists = name in group
+        try:
+            dset = group.create_dataset(name, data=data, **kwargs)
+            if metadata:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+        except Exception:
+            if not exists and name in group:
+                del group[name]
+            raise
+        return dset
+
     #
     # Dictionaries
     #
@@ -281,12 +295,9 @@ class HDFContainer(object):
         else:
             array_group = self._hdfobj[GROUPS['array']]
 
-        dset = array_group.create_dataset(
-            array_name, data=array, compression=compression)
-        if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
-        return dset
+        return self._createDataset(array_group, array_name, array,
+                                   metadata=metadata,
+                                   compression=compression)
 
     def getArray(self, name):
         """
@@ -361,7 +372,7 @@ class HDFContainer(object):
             string_group = self._hdfobj[GROUPS['string']]
 
         inbytes = instring.encode('utf-8')
-        mdataset = string_group.create_dataset(string_name, data=inbytes)
+        mdataset = self._createDataset(string_group, string_name, inbytes)
 
         return mdataset
 
-- 
2.43.0


From 4b2a67536470f47d6768375e1b7e3a2724132b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 24/82] fix: HDFContainer.getDataFrame reads the time column
 names h5py returns as text

---
 impactutils/io/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 43b1604..d931b51 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -471,7 +471,7 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
+        clist = json.loads(mdataset.attrs['time_columns'])
         dataframe = pd.read_json(outstring, convert_dates=clist,
                                  keep_default_dates=False, dtype=False)
 
-- 
2.43.0


From 9b13897168f76bb69dd3749b9a0a6b17295a3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:53 +0000
Subject: [PATCH 25/82] fix: read_event_file reads times given as year, month,
 ..., second

---
 impactutils/rupture/origin.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..703e888 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -381,13 +381,13 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(float(xmldict['second'])))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0


From 8308b43bafd307cc3e7003b69efa5ce073ee912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:53 +0000
Subject: [PATCH 26/82] fix: read_source skips blank lines and keeps values
 that contain '='

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index 703e888..f162897 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -423,9 +423,9 @@ def read_source(sourcefile):
         f = sourcefile
     params = {}
     for line in f.readlines():
-        if line.startswith('#'):
+        if line.startswith('#') or not line.strip():
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From ad8c2dee86711f010041c79899cf6bbc2cc59ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:53 +0000
Subject: [PATCH 27/82] fix: HistoricTime.strftime writes four digit years,
 which strptime can read back

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..60b9475 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -39,7 +39,7 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year > 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-- 
2.43.0


From 208d081c5e3b24c50cd4dbc6eae9ddb7e846e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:53 +0000
Subject: [PATCH 28/82] fix: HistoricTime.strftime raises its own ValueError
 for %c and %x

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 60b9475..39ff70d 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -30,7 +30,7 @@ class Specifier(str):
 
 class HistoricTime(datetime):
 
-    def strftime(self, format):
+    def strftime(self, format, force=False):
         year = self.year
         if year >= 1900:
             return super(HistoricTime, self).strftime(format)
-- 
2.43.0


From 72d44106aae619d0818049d212c1af1212e3cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 29/82] fix: is_quad measures how far the fourth point is off
 the plane of the others

---
 impactutils/rupture/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index b42275c..c7d0446 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -44,7 +44,7 @@ def is_quad(q):
     new_p2 = p3 + v0 * d
 
     # How far off of the plane is the origin p2?
-    planepoints = [p0, p1, p2]
+    planepoints = [p0, p1, p3]
     dist = get_distance_to_plane(planepoints, p2)
 
     # Is it close enough?
-- 
2.43.0


From 7c11310edda33caca9fd40cf8da36a95852579f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 30/82] fix: EdgeRupture.getQuadrilaterals returns the
 quadrilaterals of every group

---
 impactutils/rupture/edge_rupture.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..42fd6da 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -503,18 +503,19 @@ class EdgeRupture(Rupture):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
             for j in range(nq):
-                P0 = Point(self._toplons[j],
-                           self._toplats[j],
-                           self._topdeps[j])
-                P1 = Point(self._toplons[j + 1],
-                           self._toplats[j + 1],
-                           self._topdeps[j + 1])
-                P2 = Point(self._botlons[j + 1],
-                           self._botlats[j + 1],
-                           self._botdeps[j + 1])
-                P3 = Point(self._botlons[j],
-                           self._botlats[j],
-                           self._botdeps[j])
+                k = ind[j]
+                P0 = Point(self._toplons[k],
+                           self._toplats[k],
+                           self._topdeps[k])
+                P1 = Point(self._toplons[k + 1],
+                           self._toplats[k + 1],
+                           self._topdeps[k + 1])
+                P2 = Point(self._botlons[k + 1],
+                           self._botlats[k + 1],
+                           self._botdeps[k + 1])
+                P3 = Point(self._botlons[k],
+                           self._botlats[k],
+                           self._botdeps[k])
                 qlist.append([P0, P1, P2, P3])
 
         return qlist
-- 
2.43.0


From 85a84ef891a3230e8c44a49e0b54a9ebe78fa0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:24 +0000
Subject: [PATCH 31/82] fix: GC2 distances of an EdgeRupture with several
 groups use the right quadrilaterals

---
 impactutils/rupture/gc2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 6a7687a..f0d125f 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -61,6 +61,11 @@ def _computeGC2(rupture, lon, lat, depth):
     # starting the loop if there is more than one group/trace.
     # -------------------------------------------------------------------------
     group_ind = rupture._getGroupIndex()
+    if len(group_ind) != len(quadlist):
+        # An EdgeRupture has one index per vertex of the top edge: keep those
+        # of the vertices that start a quadrilateral.
+        group_ind = [g0 for g0, g1 in zip(group_ind[:-1], group_ind[1:])
+                     if g0 == g1]
 
     # Need group_ind as numpy array for sensible indexing...
     group_ind_np = np.array(group_ind)
-- 
2.43.0


From 1281317ff0c605a8a68e0d3a4922bf3583059951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:12 +0000
Subject: [PATCH 32/82] fix: a rupture keeps its own reference when the origin
 has one too

---
 impactutils/rupture/edge_rupture.py  | 10 +---------
 impactutils/rupture/point_rupture.py |  1 +
 impactutils/rupture/quad_rupture.py  | 21 ++++-----------------
 3 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 42fd6da..95906f9 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -87,6 +87,7 @@ class EdgeRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
         d['metadata']['mesh_dx'] = mesh_dx
 
         self._geojson = d
@@ -169,15 +170,6 @@ class EdgeRupture(Rupture):
                  }
              }]}
 
-        # Add origin information to metadata
-        odict = origin.__dict__
-        for k, v in odict.items():
-            if isinstance(v, HistoricTime):
-                d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
-                d['metadata'][k] = v
-        d['metadata']['mesh_dx'] = mesh_dx
-
         return cls(d, origin, mesh_dx)
 
     def getLength(self):
diff --git a/impactutils/rupture/point_rupture.py b/impactutils/rupture/point_rupture.py
index 8f0872a..4027a0a 100755
--- a/impactutils/rupture/point_rupture.py
+++ b/impactutils/rupture/point_rupture.py
@@ -62,6 +62,7 @@ class PointRupture(Rupture):
                 d['metadata'][k] = v.strftime(TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
 
         self._geojson = d
 
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..caa0ba6 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -20,7 +20,6 @@ from impactutils.rupture.utils import (_quad_distance, get_quad_width,
                                        get_quad_length, is_quad)
 from impactutils.rupture import gc2
 import impactutils.rupture.constants as constants
-from impactutils.time.ancient_time import HistoricTime
 from impactutils.vectorutils.ecef import latlon2ecef
 from impactutils.vectorutils.ecef import ecef2latlon
 from impactutils.vectorutils.vector import Vector
@@ -62,6 +61,8 @@ class QuadRupture(Rupture):
             lat = lat + p_lats + [np.nan]
             dep = dep + p_depths + [np.nan]
 
+        reference = d['metadata']['reference']
+
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
@@ -69,13 +70,14 @@ class QuadRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
 
         self._geojson = d
         self._lon = lon
         self._lat = lat
         self._depth = dep
         self._origin = origin
-        self._reference = d['metadata']['reference']
+        self._reference = reference
         self._setQuadrilaterals()
 
     def getDepthAtPoint(self, lat, lon):
@@ -381,14 +383,6 @@ class QuadRupture(Rupture):
                  }
              }]}
 
-        # Add origin information to metadata
-        odict = origin.__dict__
-        for k, v in odict.items():
-            if isinstance(v, HistoricTime):
-                d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
-                d['metadata'][k] = v
-
         return cls(d, origin)
 
     def writeTextFile(self, rupturefile):
@@ -659,13 +653,6 @@ class QuadRupture(Rupture):
                  }
              }]}
 
-        # Add origin information to metadata
-        odict = origin.__dict__
-        for k, v in odict.items():
-            if isinstance(v, HistoricTime):
-                d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
-                d['metadata'][k] = v
         if hasattr(origin, 'id'):
             d['metadata']['eventid'] = origin.id
 
-- 
2.43.0


From 47ec008af4890dbd88e65c679d63776ffd8ad22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:12 +0000
Subject: [PATCH 33/82] fix: a QuadRupture made with the origin of an
 EdgeRupture is read back as a QuadRupture

---
 impactutils/rupture/quad_rupture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index caa0ba6..2afc146 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -71,6 +71,8 @@ class QuadRupture(Rupture):
             else:
                 d['metadata'][k] = v
         d['metadata']['reference'] = reference
+        # This is how rupture_from_dict tells an EdgeRupture
+        d['metadata'].pop('mesh_dx', None)
 
         self._geojson = d
         self._lon = lon
-- 
2.43.0


From ed8d76159ca39fe5205ff8319b1bb8e94aa9ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:31 +0000
Subject: [PATCH 34/82] fix: a PointRupture read from GeoJSON keeps its
 reference

---
 impactutils/rupture/factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index ca57dd9..62a5603 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -130,7 +130,8 @@ def rupture_from_dict_and_origin(rupdict, origin, mesh_dx=0.5):
         rupt = QuadRupture(rupdict, origin)
     else:
         if rupdict['features'][0]['geometry']['type'] == 'Point':
-            rupt = PointRupture(origin)
+            rupt = PointRupture(origin,
+                                reference=rupdict['metadata']['reference'])
         else:
             rupt = EdgeRupture(rupdict, origin, mesh_dx=mesh_dx)
 
@@ -178,7 +179,7 @@ def rupture_from_dict(d):
         else:
             rupt = QuadRupture(d, origin)
     elif geo_type == 'Point':
-        rupt = PointRupture(origin)
+        rupt = PointRupture(origin, reference=d['metadata']['reference'])
 
     return rupt
 
-- 
2.43.0


From 4776437083924d9bce8bbfa75a84661f1bd6f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:31 +0000
Subject: [PATCH 35/82] fix: EdgeRupture.fromArrays accepts integer coordinates
 (the GeoJSON could not be written)

---
 impactutils/rupture/edge_rupture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 95906f9..555a618 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -128,12 +128,12 @@ class EdgeRupture(Rupture):
             EdgeRupture instance.
 
         """
-        toplons = np.array(toplons)
-        toplats = np.array(toplats)
-        topdeps = np.array(topdeps)
-        botlons = np.array(botlons)
-        botlats = np.array(botlats)
-        botdeps = np.array(botdeps)
+        toplons = np.array(toplons, dtype='d')
+        toplats = np.array(toplats, dtype='d')
+        topdeps = np.array(topdeps, dtype='d')
+        botlons = np.array(botlons, dtype='d')
+        botlats = np.array(botlats, dtype='d')
+        botdeps = np.array(botdeps, dtype='d')
         if group_index is not None:
             group_index = np.array(group_index)
         else:
-- 
2.43.0


From f865150d9a5d051d9c406bbb2535b0e2d8be8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 36/82] fix: rupture files that do not hold a single
 quadrilateral are rejected

---
 impactutils/rupture/factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 62a5603..4db59b1 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -239,6 +239,9 @@ def _check_polygon(p):
     if n_points % 2 == 0:
         raise ValueError('Number of points in polyon must be odd.')
 
+    if n_points < 5:
+        raise ValueError('A polygon must have at least four corners.')
+
     if p[0] != p[-1]:
         raise ValueError('First and last points in polygon must be '
                          'identical.')
@@ -436,6 +439,8 @@ def validate_json(d):
 
     if geom['type'] == 'MultiPolygon':
         n_polygons = len(polygons)
+        if n_polygons == 0:
+            raise ValueError('A rupture must have at least one polygon.')
         for i in range(n_polygons):
             _check_polygon(polygons[i])
 
-- 
2.43.0


From 3937f2588a2a1ed06f0f446f011dc41d319eacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 37/82] fix: getDepthAtPoint accounts for the depth of the top
 edge

---
 impactutils/rupture/quad_rupture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 2afc146..a300291 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -141,8 +141,8 @@ class QuadRupture(Rupture):
         # dot product
         sxdd = ddn.dot(s0sx)
 
-        # get width of quad (convert from km to m)
-        w = get_quad_width(quad) * 1000
+        # get width of quad (km, like the projected coordinates)
+        w = get_quad_width(quad)
 
         # Get weights for top and bottom edge depths
         N = get_quad_normal(quad)
@@ -153,7 +153,7 @@ class QuadRupture(Rupture):
         wtb = sxdd / ws
 
         # Compute the depth of of the plane at Px:
-        depth = wtt * P0.z + wtb * P3.z * 1000
+        depth = wtt * P0.z + wtb * P3.z
 
         return depth
 
-- 
2.43.0


From 58e90d51eb2e529352caa059c923c497cead539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:25 +0000
Subject: [PATCH 38/82] fix: get_distance leaves the mesh spacing of the
 rupture alone

---
 impactutils/rupture/distance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/distance.py b/impactutils/rupture/distance.py
index 3684f23..28051ad 100755
--- a/impactutils/rupture/distance.py
+++ b/impactutils/rupture/distance.py
@@ -168,8 +168,6 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     Returns:
        dict: dictionary of numpy arrays of distances, size of lon.shape.
     """
-    rupture._mesh_dx = dx
-
     # Dictionary for holding/returning the requested distances
     distdict = dict()
 
@@ -189,6 +187,11 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
         raise ConsistentLengthError(
             'lat, lon, and dep must have the same shape.')
 
+    # The mesh spacing is for this call only
+    if isinstance(rupture, EdgeRupture):
+        rupture = copy.copy(rupture)
+        rupture._mesh_dx = dx
+
     # -------------------------------------------------------------------------
     # Point distances
     # -------------------------------------------------------------------------
-- 
2.43.0


From e004e3761eb1e8aaf064747b4786ba56f34a1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 39/82] fix: Rjb of a site off a vertical quadrilateral is not
 0

---
 impactutils/rupture/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index c7d0446..444cd22 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -444,8 +444,12 @@ def _quad_distance(q, points, horizontal=False):
     p2 = Vector.fromPoint(P2)
     p3 = Vector.fromPoint(P3)
 
-    # Make a unit vector normal to the plane
-    normalVector = (p1 - p0).cross(p2 - p0).norm()
+    # Make a unit vector normal to the plane. The surface projection of a
+    # vertical quad may have no area, and nothing is inside of it.
+    normalVector = (p1 - p0).cross(p2 - p0)
+    is_line = normalVector.mag() == 0
+    if not is_line:
+        normalVector = normalVector.norm()
 
     dist = np.ones_like(points[:, 0]) * np.nan
 
@@ -466,6 +470,8 @@ def _quad_distance(q, points, horizontal=False):
     sgn3 = np.signbit(np.sum(n3 * p3d, axis=1))
 
     inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
+    if is_line:
+        inside_idx[:] = False
     if horizontal:
         dist[inside_idx] = 0.0
     else:
-- 
2.43.0


From 73b18e0dc5aa3f82321acf9594879f033ede9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 40/82] fix: GC2 distances of a rupture whose top edge is not
 level use horizontal lengths

---
 impactutils/rupture/gc2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index f0d125f..8e79cf0 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -31,6 +31,9 @@ def _computeGC2(rupture, lon, lat, depth):
 
     quadlist = rupture.getQuadrilaterals()
     quadgc2 = copy.deepcopy(quadlist)
+    for quad in quadgc2:
+        for p in quad:
+            p.depth = 0.0
 
     oldshape = lon.shape
 
-- 
2.43.0


From 1cf89e7511e0cdef4f2899269df6ba4c053e7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 41/82] fix: the GC2 origin is one of the two endpoints
 farthest apart

---
 impactutils/rupture/gc2.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 8e79cf0..86cd0f3 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -92,31 +92,15 @@ def _computeGC2(rupture, lon, lat, depth):
             iq1[k] = int(np.max(ii))
 
         # ---------------------------------------------------------------------
-        # This is an iterator for each possible combination of traces
-        # including trace orientations (i.e., flipped).
+        # Find the pair of trace endpoints that gives the largest distance.
         # ---------------------------------------------------------------------
+        ends = []
+        for k in range(n_groups):
+            ends += [quadlist[iq0[k]][0], quadlist[iq1[k]][1]]
 
-        it_seg = it.product(it.combinations(uind, 2),
-                            it.product([0, 1], [0, 1]))
-
-        # Placeholder for the trace pair/orientation that gives the
-        # largest distance.
         dist_save = 0
 
-        for k in it_seg:
-            s0ind = k[0][0]
-            s1ind = k[0][1]
-            p0ind = k[1][0]
-            p1ind = k[1][1]
-            if p0ind == 0:
-                P0 = quadlist[iq0[s0ind]][0]
-            else:
-                P0 = quadlist[iq1[s0ind]][1]
-            if p1ind == 0:
-                P1 = quadlist[iq1[s1ind]][0]
-            else:
-                P1 = quadlist[iq0[s1ind]][1]
-
+        for P0, P1 in it.combinations(ends, 2):
             dist = geodetic.distance(P0.longitude, P0.latitude, 0.0,
                                      P1.longitude, P1.latitude, 0.0)
             if dist > dist_save:
-- 
2.43.0


From 5cf76e755bb6b26cf18cfe3e983912a86da6ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 42/82] fix: Ry0 past the end of a rupture with several groups

---
 impactutils/rupture/gc2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 86cd0f3..fdf56cf 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -177,6 +177,7 @@ def _computeGC2(rupture, lon, lat, depth):
         # End of if-statement for adjusting group discordancy
 
     s_i = 0.0
+    s_end = 0.0
     l_i = np.zeros(len(quadgc2))
 
     for i in range(len(quadgc2)):
@@ -232,6 +233,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
             s_ij = s_ij_1 + s_ij_2
             GC2U = GC2U + w_i * (u_i + s_ij)
+            s_end = max(s_end, s_ij + l_i[i])
 
         s_i = s_i + l_i[i]
 
@@ -259,7 +261,7 @@ def _computeGC2(rupture, lon, lat, depth):
     ix = GC2U < 0
     Ry0[ix] = np.abs(GC2U[ix])
     if n_groups > 1:
-        s_i = s_ij + l_i[-1]
+        s_i = s_end
     ix = GC2U > s_i
     Ry0[ix] = GC2U[ix] - s_i
     Ry0 = Ry0.reshape(oldshape)
-- 
2.43.0


From b8dfcc0c149980f96f1a5eb13b9235fe1fb2dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 43/82] fix: GC2 distances of sites in line with a segment are
 not NaN

---
 impactutils/rupture/gc2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index fdf56cf..2ab638f 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -187,6 +187,9 @@ def _computeGC2(rupture, lon, lat, depth):
         t_i = __calc_t_i(G0, G1, lat, lon, proj)
         u_i = __calc_u_i(G0, G1, lat, lon, proj)
 
+        # Too close to the line for the difference of arctangents below
+        t_i[np.abs(t_i) < 1e-9] = 0.0
+
         # Quad length (top edge)
         l_i[i] = get_quad_length(quadgc2[i])
 
-- 
2.43.0


From dc63214005c0c7dc047baf6059bf523c14f81ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 44/82] fix: GC2U of a site on the trace

---
 impactutils/rupture/gc2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 2ab638f..7a21888 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -200,9 +200,9 @@ def _computeGC2(rupture, lon, lat, depth):
         # Case 3: t_i == 0 and 0 <= u_i <= l_i
         w_i = np.zeros_like(t_i)
 
-        # To avoid division by zero in totweight later on:
+        # The weight is infinite on the segment; large will do
         ix = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
-        totweight[ix] = 1.0
+        w_i[ix] = 1e15
 
         # Case 1:
         ix = t_i != 0
-- 
2.43.0


From 6e872c891917efa9cc59fdbb4460f30ae3c30901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 45/82] fix: Rjb of a site off a vertical trapezoid is not 0

---
 impactutils/rupture/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index 444cd22..d29b01e 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -445,11 +445,11 @@ def _quad_distance(q, points, horizontal=False):
     p3 = Vector.fromPoint(P3)
 
     # Make a unit vector normal to the plane. The surface projection of a
-    # vertical quad may have no area, and nothing is inside of it.
-    normalVector = (p1 - p0).cross(p2 - p0)
-    is_line = normalVector.mag() == 0
-    if not is_line:
-        normalVector = normalVector.norm()
+    # vertical quad may have no area, but its normal is vertical in any case.
+    if horizontal:
+        normalVector = p0.norm()
+    else:
+        normalVector = (p1 - p0).cross(p2 - p0).norm()
 
     dist = np.ones_like(points[:, 0]) * np.nan
 
@@ -470,8 +470,6 @@ def _quad_distance(q, points, horizontal=False):
     sgn3 = np.signbit(np.sum(n3 * p3d, axis=1))
 
     inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
-    if is_line:
-        inside_idx[:] = False
     if horizontal:
         dist[inside_idx] = 0.0
     else:
-- 
2.43.0


From dfbb084809ef8c9208156635f46128d65bfae475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:47 +0000
Subject: [PATCH 46/82] fix: HistoricTime.strftime of the years 300, 700, 1100
 and 1500

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 39ff70d..5fac26b 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -37,7 +37,7 @@ class HistoricTime(datetime):
         assert year < 1900
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
-        assert future_year > 1900
+        assert future_year >= 1900
 
         format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
-- 
2.43.0


From 303ad23b704bbe7975e843bc5bfab4a5967a2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:47 +0000
Subject: [PATCH 47/82] fix: HistoricTime.strftime writes the right %F, %G and
 %C before 1900

---
 impactutils/time/ancient_time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5fac26b..a1c390e 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -39,6 +39,11 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year >= 1900
 
+        # These hold the year, in part or in another calendar
+        format = Specifier('%F').replace_in(format, '%Y-%m-%d')
+        iso_year = self.isocalendar()[0]
+        format = Specifier('%G').replace_in(format, f'{iso_year:04d}')
+        format = Specifier('%C').replace_in(format, f'{year // 100:02d}')
         format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
-- 
2.43.0


From 2cbd0777e6fdf1138608de38bc4f15b2f4805998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 48/82] fix: LocalTime.getTimeZone returns the time zone

---
 impactutils/time/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..f7e2c13 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -272,7 +272,7 @@ class LocalTime(object):
         return self._utcoffset
 
     def getTimeZone(self):
-        return self._timezone
+        return self._timezone_str
 
     def update(self, utctime, lat, lon):
         self._lat = lat
-- 
2.43.0


From e109cb5005a32ee4ec9ed6c9b2632a5e38327d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 49/82] fix: LocalTimeNE's projection is valid (PROJ takes no
 letter in a zone)

---
 impactutils/time/timeutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index f7e2c13..d336731 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -317,11 +317,8 @@ class LocalTimeNE(LocalTime):
             if xmin > xmax:
                 xmin -= 360
             clon = (xmin + xmax) / 2
-            hem = 'N'
-            if lat < 0:
-                hem = 'S'
             utmzone = _get_utm_zone(clon)
-            utmstr = (f'+proj=utm +zone={int(utmzone):d}{hem} '
+            utmstr = (f'+proj=utm +zone={int(utmzone):d} '
                       '+ellps=WGS84 +datum=WGS84 +units=m +no_defs')
             geostr = '+proj=longlat +datum=WGS84 +ellps=WGS84'
             projection = partial(
-- 
2.43.0


From 4bbd7c5ceee103393b871749b16967ddb7cb412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 50/82] fix: LocalTime uses the UTC offset in force at the UTC
 time

---
 impactutils/time/timeutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index d336731..e413b10 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -81,6 +81,11 @@ def _get_utm_zone(clon):
     return zone
 
 
+def _get_utc_offset(tz, utctime):
+    # pytz's own utcoffset() takes the time to be local
+    return utctime.replace(tzinfo=pytz.utc).astimezone(tz).utcoffset()
+
+
 class ElapsedTime(object):
     def __init__(self):
         pass
@@ -244,7 +249,7 @@ class LocalTime(object):
 
             if is_inside:
                 mytz = pytz.timezone(timezone)
-                utcoffset = mytz.utcoffset(utctime)
+                utcoffset = _get_utc_offset(mytz, utctime)
                 local_time = utctime + utcoffset
                 break
         if local_time is None:
@@ -343,7 +348,7 @@ class LocalTimeNE(LocalTime):
                     timezone = 'undefined'
                 if timezone != 'undefined':
                     mytz = pytz.timezone(timezone)
-                    utcoffset = mytz.utcoffset(utctime)
+                    utcoffset = _get_utc_offset(mytz, utctime)
                     local_time = utctime + utcoffset
                 else:
                     offset_hours = f['properties']['zone']
-- 
2.43.0


From d59239f60c5373cac02734c4e67536d78f5d9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 51/82] fix: LocalTime outside of all zones has an offset like
 elsewhere, and no zone

---
 impactutils/time/timeutils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index e413b10..6dbe039 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -254,8 +254,9 @@ class LocalTime(object):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(hours=round(lon / 15))
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
@@ -358,8 +359,9 @@ class LocalTimeNE(LocalTime):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(hours=round(lon / 15))
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
-- 
2.43.0


From 328f8feaf8cda457c3a14d316c956eed073185fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 52/82] fix: TimeConversion converts with the rounding method
 given

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 6dbe039..9bc8313 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -549,7 +549,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the local time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         local_time = pytz.utc.localize(utctime).astimezone(timezone)
         return local_time
@@ -569,7 +569,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the UTC time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         # Set the local timezone information
         local = timezone.localize(localtime)
-- 
2.43.0


From 617431df21dccf894986033850406a97c6c479ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 53/82] fix: TimeConversion with a raster that crosses 180
 degrees

---
 impactutils/time/timeutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 9bc8313..aba3a7b 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -480,6 +480,13 @@ class TimeConversion(object):
         min_lat = self._extents['Lower Left'][1]
         max_lat = self._extents['Upper Left'][1]
 
+        # Count eastward from the left edge if the raster crosses 180 degrees,
+        # up to half way to it from the right edge
+        if max_lon < min_lon:
+            max_lon += 360
+            if lon < (min_lon + max_lon) / 2 - 180:
+                lon += 360
+
         # Account for rasters with limited extent
         # If the value is less than or greater than the extent, then set it to
         # the closest boundary
@@ -495,8 +502,6 @@ class TimeConversion(object):
         # Set the resolution in x (longitude) and y (latitude)
         resx = self._resolution[0]
         resy = self._resolution[1]
-        if max_lon < min_lon and lon < min_lon:
-            lon += 360
         col = (lon - min_lon) / resx
         row = (max_lat - lat) / resy
 
-- 
2.43.0


From 63ad780a3f744a6824075d9f9156ef9074e3102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:52 +0000
Subject: [PATCH 54/82] fix: HistoricTime.strftime finds %c and %x after an
 escaped one

---
 impactutils/time/ancient_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index a1c390e..97b4423 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -14,8 +14,8 @@ class Specifier(str):
         return self
 
     def ispresent_in(self, format):
-        m = self._regex.search(format)
-        return m and m.group(1).count('%') & 1  # odd number of '%'
+        return any(m.group(1).count('%') & 1  # odd number of '%'
+                   for m in self._regex.finditer(format))
 
     def replace_in(self, format, by):
         def repl(m):
-- 
2.43.0


From def2101b27391566af4ca0858457f3c62e7bcf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 55/82] fix: Cities.sortByColumns sorts

---
 impactutils/mapping/city.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..60cae84 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -198,7 +198,9 @@ class Cities(object):
         Raises:
             KeyError: When column(s) are not in the list of dataframe columns.
         """
-        bad_columns = set(columns).difference(set(self._dataframe.columns()))
+        if isinstance(columns, str):
+            columns = [columns]
+        bad_columns = set(columns).difference(set(self._dataframe.columns))
         if bad_columns:
             raise KeyError(
                 f'Column(s) not in list of DataFrame columns: {str(bad_columns)}')
-- 
2.43.0


From fa1a78457b48f1f24df420ff1108aa9f05a8886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 56/82] fix: Cities.limitByGrid with current pandas

---
 impactutils/mapping/city.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 60cae84..2c834f4 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -328,7 +328,7 @@ class Cities(object):
                 if newdf is None:
                     newdf = tdf.copy()
                 else:
-                    newdf = newdf.append(tdf)
+                    newdf = pd.concat([newdf, tdf])
         return type(self)(newdf)
 
     def limitByName(self, cityname):
-- 
2.43.0


From e209c3bc4881577d0f16fab9c0135ce59462bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 57/82] fix: Cities saved to a file are read back as they were

---
 impactutils/mapping/city.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 2c834f4..eec2305 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -162,7 +162,9 @@ class Cities(object):
         Returns:
             Cities instance
         """
-        df = pd.read_csv(csvfile)
+        # names are text, and "NA" (the country code of Namibia) is not missing
+        df = pd.read_csv(csvfile, keep_default_na=False, na_values=[''],
+                         dtype={'name': str, 'ccode': str})
         return cls(df)
 
     def len(self):
@@ -182,7 +184,7 @@ class Cities(object):
         Returns:
             None
         """
-        self._dataframe.to_csv(filename)
+        self._dataframe.to_csv(filename, index=False)
 
     def sortByColumns(self, columns, ascending=True):
         """Sort list of cities by input column names.
-- 
2.43.0


From c895ed831183f2c203330a5797f5047cdb5290a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 58/82] fix: Cities.limitByGrid includes the western and
 southernmost cities

---
 impactutils/mapping/city.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index eec2305..e3f6e44 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -306,19 +306,17 @@ class Cities(object):
         xmax = self._dataframe['lon'].max()
         ymin = self._dataframe['lat'].min()
         ymax = self._dataframe['lat'].max()
-        dx = (xmax - xmin) / nx
-        dy = (ymax - ymin) / ny
+        # cells share their edges; cities on the outer ones belong to the grid
+        xedges = np.linspace(xmin, xmax, nx + 1)
+        yedges = np.linspace(ymin, ymax, ny + 1)
+        xedges[0] = yedges[0] = -np.inf
         newdf = None
         # start from the bottom left of our grid, and trim our cities.
 
         for i in range(0, ny):
-            cellymin = ymin + (i * dy)
-            cellymax = cellymin + dy
             for j in range(0, nx):
-                cellxmin = xmin + (j * dx)
-                cellxmax = cellxmin + dx
                 tcities = self.limitByBounds(
-                    (cellxmin, cellxmax, cellymin, cellymax))
+                    (xedges[j], xedges[j + 1], yedges[i], yedges[i + 1]))
                 # older versions of pandas use a different sort function
                 if pd.__version__ < '0.17.0':
                     tdf = tcities._dataframe.sort(columns='pop',
-- 
2.43.0


From 78c34c2c3e840dfb3909849af2cb5db0359797c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 59/82] fix: dollar_round of a million in long mode

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index c4ff3b1..62f6d4e 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -126,7 +126,7 @@ def dollar_round(value, digits=2, mode='short'):
         if value >= suffixdict['K'] and value < suffixdict['M']:
             dollar_value = set_num_precision(value / 1e3, digits, mode='float')
             return (f'${dollar_value} thousand')
-        if value > suffixdict['M'] and value < suffixdict['B']:
+        if value >= suffixdict['M'] and value < suffixdict['B']:
             dollar_value = set_num_precision(value / 1e6, digits, mode='float')
             return (f'${dollar_value} million')
         else:
-- 
2.43.0


From 472ca58205132c533a76404f6d01ab3423481d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 60/82] fix: commify terminates with an empty separator

---
 impactutils/textformat/text.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 62f6d4e..285de63 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -244,10 +244,11 @@ def commify(num, separator=','):
     Returns:
         "Commified" string.
     """
-    regex = re.compile(r'^(-?\d+)(\d{3})')
     num = str(num)  # just in case we were passed a numeric value
-    more_to_do = 1
-    while more_to_do:
-        substring = rf'\1{separator}\2'
-        (num, more_to_do) = regex.subn(substring, num)
-    return num
+    match = re.match(r'-?\d+', num)
+    if match is None:
+        return num
+    whole = match.group()
+    # every place followed by a multiple of three digits
+    commified = re.sub(r'(?<=\d)(?=(?:\d{3})+$)', lambda m: separator, whole)
+    return commified + num[len(whole):]
-- 
2.43.0


From 30870cb09412bf6aa8c75c92c4ae6d3b13e41da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 61/82] fix: round_to_nearest and the like of decimal fractions

---
 impactutils/textformat/text.py | 42 +++++++++-------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 285de63..7b6c408 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -2,6 +2,7 @@
 
 # stdlib imports
 import re
+from decimal import Decimal
 from math import floor, ceil
 
 # these two lists serves as building blocks to construct any roman numeral
@@ -163,6 +164,13 @@ def pop_round_short(value, usemillion=False):
         return commify(roundnum) + suffix
 
 
+def _to_multiple(value, unit, rounding):
+    # in decimal, where 0.29 is a multiple of 0.01
+    unit = Decimal(str(unit))
+    multiple = rounding(Decimal(str(value)) / unit) * unit
+    return float(multiple) if unit < 1 else int(multiple)
+
+
 def round_to_nearest(value, round_value=1000):
     """Return the value, rounded to nearest round_value (defaults to 1000).
 
@@ -173,17 +181,7 @@ def round_to_nearest(value, round_value=1000):
     Returns:
         Value rounded to nearest desired integer.
     """
-    if round_value < 1:
-        ds = str(round_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        round_value = round_value * 10**nd
-        value = int(round(float(value) / round_value) * round_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(round(float(value) / round_value) * round_value)
-
-    return value
+    return _to_multiple(value, round_value, round)
 
 
 def floor_to_nearest(value, floor_value=1000):
@@ -196,16 +194,7 @@ def floor_to_nearest(value, floor_value=1000):
     Returns:
         Floored value.
     """
-    if floor_value < 1:
-        ds = str(floor_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        floor_value = floor_value * 10**nd
-        value = int(floor(float(value) / floor_value) * floor_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(floor(float(value) / floor_value) * floor_value)
-    return value
+    return _to_multiple(value, floor_value, floor)
 
 
 def ceil_to_nearest(value, ceil_value=1000):
@@ -218,16 +207,7 @@ def ceil_to_nearest(value, ceil_value=1000):
     Returns:
         Ceiled value.
     """
-    if ceil_value < 1:
-        ds = str(ceil_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        ceil_value = ceil_value * 10**nd
-        value = int(ceil(float(value) / ceil_value) * ceil_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(ceil(float(value) / ceil_value) * ceil_value)
-    return value
+    return _to_multiple(value, ceil_value, ceil)
 
 
 def commify(num, separator=','):
-- 
2.43.0


From 9628077c2dc3e751353d9cc9135dd28738aef1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:56 +0000
Subject: [PATCH 62/82] fix: get_compass_dir gives the long names when asked

---
 impactutils/mapping/compass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/compass.py b/impactutils/mapping/compass.py
index 652f3d6..b23b5eb 100755
--- a/impactutils/mapping/compass.py
+++ b/impactutils/mapping/compass.py
@@ -42,7 +42,7 @@ def get_compass_dir(lat1, lon1, lat2, lon2, resolution='intercardinal', format='
     az = azimuth(lon1, lat1, lon2, lat2)
     if az < 0:
         az += 360
-    return get_compass_dir_azimuth(az, resolution=resolution)
+    return get_compass_dir_azimuth(az, resolution=resolution, format=format)
 
 
 def get_compass_dir_azimuth(azimuth, resolution='intercardinal', format='short'):
-- 
2.43.0


From 17a0971749cb9091f79f86d62fc207d09ba2c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 63/82] fix: a web service that is unavailable is tried again

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..5e99fd9 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -1,6 +1,7 @@
 # stdlib imports
 from datetime import datetime
 import json
+import time
 from urllib import request
 from urllib.error import HTTPError
 import warnings
-- 
2.43.0


From 69902c150a572ffafc54ce1508b84d8b0d9f87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 64/82] fix: HTTP errors of web services are raised, and
 grid.xml files not emptied

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 5e99fd9..e0ba060 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -33,6 +33,7 @@ def _get_url_data(url, timeout=TIMEOUT):
             except Exception as msg:
                 raise Exception(
                     f'Error downloading data from url {url}.  "{msg}".')
+        raise
 
 
 class GeoServe(object):
-- 
2.43.0


From 026b27aa27d1d0fc371756411ee60d6ff4bb7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 65/82] fix: GeoServe.getRegions omits the metadata

---
 impactutils/comcat/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index e0ba060..aef2332 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -95,7 +95,7 @@ class GeoServe(object):
             dict: geojson-like dictionaries, described here: https://earthquake.usgs.gov/ws/geoserve/regions.php
                   The 'metadata' dictionary is omitted.
         """
-        self._regdict.get('metadata', None)
+        self._regdict.pop('metadata', None)
         return self._regdict
 
     def getAuthoritative(self):
-- 
2.43.0


From 3022cfdb0770cc65bdde60a00b08d11d9a7f2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 66/82] fix: ColorPalette notices sequences of different
 lengths

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..8d8e60a 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -55,7 +55,7 @@ POP = {'z0': [0, 4, 49, 99, 499, 999, 4999, 9999],
 
 
 TOPO = {'z0': [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100],
-        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9200],
+        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200],
         'rgb0': [(195, 255, 193),
                  (110, 135, 80),
                  (120, 160, 90),
@@ -108,7 +108,7 @@ class ColorPalette(object):
                 transparent, and 255 is opaque.)
         """
         # validate that lengths are all identical
-        if len(z0) != len(z1) != len(rgb0) != len(rgb1):
+        if not len(z0) == len(z1) == len(rgb0) == len(rgb1):
             raise ConsistentLengthError('Lengths of input sequences to ColorPalette() '
                                       'must be identical.')
         self._is_log = is_log
-- 
2.43.0


From dec2c5434edf37278d4e039660daa4832b6f7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 67/82] fix: ColorPalette takes colors in any sequence

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 8d8e60a..eae27eb 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -134,8 +134,8 @@ class ColorPalette(object):
 
         # if we add dummy rows to our rgb sequences, we can do one simple loop
         # through.
-        rgb0_t = rgb0.copy()
-        rgb1_t = rgb1.copy()
+        rgb0_t = list(rgb0)
+        rgb1_t = list(rgb1)
         # append a dummy row to the end of RGB0
         rgb0_t.append((E, E, E))
         # prepend a dummy row to the beginning of RGB1
-- 
2.43.0


From 53bbf77c26225e856c590439b5ed447ba64895ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 68/82] fix: draw_scale failed with an UnboundLocalError when
 bar_length was given

---
 impactutils/mapping/scalebar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 7f85a5c..5840e55 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -224,9 +224,9 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
     gap_height = top_data - bottom_data
 
     # what is the bar length data units?
+    map_width_data = xmax - xmin
     if bar_length is None:
         lengths = np.array(list(LENGTHS.keys()))
-        map_width_data = xmax - xmin
         map_width_meters = map_width_data * dataunits_to_meters
         map_width_scale_units = map_width_meters * 1 / UNITS[units]
         qmap_width_scale_units = map_width_scale_units * BAR_WIDTH_FRACTION
-- 
2.43.0


From 5f72fdc2e3674c0ccb7d3a77a3574ab89a2834ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 69/82] fix: scale bar labels of lengths that are not whole
 numbers were cut off

---
 impactutils/mapping/scalebar.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 5840e55..ac0fbbe 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -73,6 +73,11 @@ UNITS = {'km': 1000.,
          'ind-ch': 20.11669506}
 
 
+def _format_tick(value):
+    """Format a tick value with no more decimals (up to two) than it needs."""
+    return f'{value:.2f}'.rstrip('0').rstrip('.')
+
+
 def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
                zorder=20, bar_length=None, divisions=None):
     """Draw a scale bar on an axes, choosing the best defaults possible.
@@ -288,8 +293,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
             color = 'black'
         else:
             color = 'white'
-            tick_i = int(i * (bar_length / divisions))
-            scale_tick = f'{tick_i:d}'
+            scale_tick = _format_tick(i * (bar_length / divisions))
             if is_div_even or i == 0:
                 # if we have an even number of divisions, draw every other
                 # tick mark
@@ -306,7 +310,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
         ax.fill(barx, recty, color, zorder=zorder)
     # draw the last tick mark and number
     ax.text(bar_left + bar_length_data, bar_bottom - (tick_height + gap_height),
-            f'{int(bar_length):d}', ha='center', zorder=zorder, va='top',
+            _format_tick(bar_length), ha='center', zorder=zorder, va='top',
             fontsize=font_size)
     left = bar_left + bar_length_data
     bottom = bar_bottom - tick_height
-- 
2.43.0


From 5ee6546c5aa4115092dbc3aa898090d31e65ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 70/82] fix: MercatorMap.getAxesClone raised AttributeError

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 4ee38a7..61eb584 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -173,7 +173,7 @@ class MercatorMap(object):
         Returns:
             Cartopy GeoAxes instance.
         """
-        return self._axes_clone
+        return self._ax_clone
 
     def getFonts(self):
         """Get list of supported fonts.
-- 
2.43.0


From e99da9eec2d5121897495c65c60c8997498cbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 71/82] fix: MercatorMap placed labels as if the axes filled
 the figure

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 61eb584..b035698 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -98,7 +98,7 @@ class MercatorMap(object):
         # set up an identical axes object - this will be used to determine city
         # label collisions.
         self._figure_clone = plt.figure(figsize=figsize)
-        self._ax_clone = self._figure_clone.add_axes([0, 0, 1, 1],
+        self._ax_clone = self._figure_clone.add_axes(dimensions,
                                                      projection=self._proj)
         self._ax_clone.set_extent([xmin, xmax, ymin, ymax],
                                   crs=self._geoproj)
-- 
2.43.0


From 25b1da05562ef6b99c9de1b6e1d74329cef957f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 72/82] fix: MercatorMap drew the largest city's label even if
 it was off the map

---
 impactutils/mapping/mercatormap.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index b035698..1d6e759 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -261,8 +261,8 @@ class MercatorMap(object):
         rights = rights[ikeep]
         bottoms = bottoms[ikeep]
         tops = tops[ikeep]
-        ikeep = [0]  # indices of non-overlapping cities in dataframe
-        for i in range(1, len(tops)):
+        ikeep = []  # indices of non-overlapping cities in dataframe
+        for i in range(0, len(tops)):
             # what is this cities name?
             # Seems like an unused variable...
             # cname = newdf.iloc[i]['name']
@@ -313,16 +313,8 @@ class MercatorMap(object):
         lefts = np.ones(len(df)) * np.nan
         rights = np.ones(len(df)) * np.nan
 
-        # get the extent of the first city
-        left, right, bottom, top = self.getCityEdges(
-            df.iloc[0], fontname, fontsize, shadow, zorder)
-        lefts[0] = left
-        rights[0] = right
-        bottoms[0] = bottom
-        tops[0] = top
-
         # loop over all the cities and get their extents on the map
-        for i in range(1, len(df)):
+        for i in range(0, len(df)):
             row = df.iloc[i]
             left, right, bottom, top = self.getCityEdges(
                 row, fontname, fontsize, shadow, zorder)
-- 
2.43.0


From 138053d55a6583fb6554bed18b0527d8362d25a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 73/82] fix: MercatorMap placed labels before the axes had
 their final shape

---
 impactutils/mapping/mercatormap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 1d6e759..ab9d822 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -206,6 +206,9 @@ class MercatorMap(object):
             KeyError: When font name is not one of the supported Matplotlib
                 font names.
         """
+        # both axes must have their final shape for label sizes to be right
+        self._ax.apply_aspect()
+        self._ax_clone.apply_aspect()
         # set the active axes to be the clone
         plt.sca(self._ax_clone)
         # cut down on the number of cities we can draw from
-- 
2.43.0


From 26748ee9186d182af4e308d7d9aac75c4a6968c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 74/82] fix: MercatorMap.drawCities did not raise the KeyError
 documented for unsupported fonts

---
 impactutils/mapping/mercatormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index ab9d822..675292b 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -209,6 +209,8 @@ class MercatorMap(object):
         # both axes must have their final shape for label sizes to be right
         self._ax.apply_aspect()
         self._ax_clone.apply_aspect()
+        if fontname not in self._fontlist:
+            raise KeyError(f'Font "{fontname}" is not supported.')
         # set the active axes to be the clone
         plt.sca(self._ax_clone)
         # cut down on the number of cities we can draw from
-- 
2.43.0


From 43a3a0a378dfa9eaa9fa206c7638abbba2ae9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 75/82] fix: senders changed the properties dictionary they
 were given, and None raised TypeError

---
 impactutils/transfer/sender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index 5850659..b3d1928 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -48,7 +48,8 @@ class Sender(object):
                 cancel() actions, this allows the user to define what that
                 file is called.
         """
-        self._properties = properties
+        # our own copy: what is added later concerns this sender only
+        self._properties = dict(properties) if properties is not None else {}
         for prop in self._required_properties:
             if prop not in self._properties:
                 raise RequiredArgumentError(
-- 
2.43.0


From ec1626b30fbcf0aadda9529a23ed34cd9053346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 76/82] fix: addFiles changed the list of files the sender was
 made with

---
 impactutils/transfer/sender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index b3d1928..7a2ee5e 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -68,7 +68,7 @@ class Sender(object):
                 raise FileNotFoundError(
                     f'Input directory {local_directory} could not be found')
         if local_files is not None:
-            self._local_files = local_files
+            self._local_files = list(local_files)
         else:
             self._local_files = []
 
-- 
2.43.0


From 5fac7bd3cd8a271798ecc4ca837e02935f75d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 77/82] fix: distance to a plane was 0 for every plane through
 the origin (vertical quadrilaterals on the equator)

---
 impactutils/rupture/utils.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index d29b01e..f4f6a45 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -509,27 +509,11 @@ def get_distance_to_plane(planepoints, otherpoint):
         float: Distance (in meters) from otherpoint to plane.
 
     """
-    # from
-    # https://en.wikipedia.org/wiki/Plane_(geometry)#Describing_a_plane_through_three_points
+    # distance along the normal of the plane
     p0, p1, p2 = planepoints
-    x1, y1, z1 = p0.getArray()
-    x2, y2, z2 = p1.getArray()
-    x3, y3, z3 = p2.getArray()
-    D = np.linalg.det(np.array([[x1, y1, z1], [x2, y2, z2], [x3, y3, z3]]))
-    if D != 0:
-        d = -1
-        at = np.linalg.det(np.array([[1, y1, z1], [1, y2, z2], [1, y3, z3]]))
-        bt = np.linalg.det(np.array([[x1, 1, z1], [x2, 1, z2], [x3, 1, z3]]))
-        ct = np.linalg.det(np.array([[x1, y1, 1], [x2, y2, 1], [x3, y3, 1]]))
-        a = (-d / D) * at
-        b = (-d / D) * bt
-        c = (-d / D) * ct
-
-        numer = np.abs(a * otherpoint.x +
-                       b * otherpoint.y +
-                       c * otherpoint.z + d)
-        denom = np.sqrt(a**2 + b**2 + c**2)
-        dist = numer / denom
+    normal = Vector.cross(p1 - p0, p2 - p0)
+    if normal.mag() != 0:
+        dist = np.abs(Vector.dot(normal.norm(), otherpoint - p0))
     else:
         dist = 0
     return dist
-- 
2.43.0


From 72dcc017595b55e943239ea9f3fed32a9e7c51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 78/82] fix: SSH sends and cancels reported success when a
 directory stood where the file goes

---
 impactutils/transfer/securesender.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 749284b..3bceec0 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -126,11 +126,11 @@ class SecureSender(Sender):
         text = shlex.quote(cancel_content or '')
         echo_cmd = f"printf '%s\\n' {text} > {shlex.quote(cancelfile)}"
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        stdout.channel.recv_exit_status()  # wait for it to finish
-        chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
+        status = stdout.channel.recv_exit_status()  # wait for it to finish
+        chk_cmd = f'[ -f {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
-        if not exists:
+        if status != 0 or not exists:
             err = stderr1.read().decode('utf-8').strip()
             fmt = (f'Could not create {cancelfile} file on '
                    f'remote_host {remote_host} due to error: {err}')
@@ -220,7 +220,9 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
+        # mv would move the file into a directory of that name
+        rename_cmd = (f'[ ! -d {shlex.quote(remote_file)} ] && '
+                      f'mv {shlex.quote(remote_tmp_file)} '
                       f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
         if stdout.channel.recv_exit_status() != 0:
-- 
2.43.0


From 8d698cbcd9dc274383ad4249b1f60166dfaf61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 79/82] fix: a PDL send raised after the product was sent when
 the client's output was not UTF-8

---
 impactutils/transfer/pdlsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index ba32066..9de5c26 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -213,7 +213,7 @@ class PDLSender(Sender):
             nfiles += sum([len(files)
                            for r, d, files in os.walk(self._local_directory)])
         numfiles = int(nfiles)
-        error_msg = stdout.decode('utf-8')
+        error_msg = stdout.decode('utf-8', errors='replace')
         msg = f'{numfiles:d} files sent successfully: resulting in output: "{error_msg}"'
         return (nfiles, msg)
 
-- 
2.43.0


From ba034294afbe65e512f6824d2aac9cc0bec51861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 80/82] fix: an FTP send destroyed a file named like its
 temporary file (x.tmp beside x)

---
 impactutils/transfer/ftpsender.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 8aef7e0..50f1ce8 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -4,6 +4,7 @@
 from ftplib import FTP, error_perm
 import os.path
 import shutil
+import datetime
 import tempfile
 
 # local
@@ -251,7 +252,9 @@ class FTPSender(Sender):
         # make a temporary file first, then rename it
         # so the poller doesn't grab it before its finished transferring.
         fbase, fpath = os.path.split(filename)  # this is a local file
-        tmpfile = fpath + '.tmp'
+        # the temporary name must not be that of another file there
+        tmpfile = fpath + '.tmp_' + \
+            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         cmd = "STOR " + tmpfile
         # we don't tell the ftp server about the local path to the file
 
-- 
2.43.0


From ec0233fe53db86516172cde4f81ca7ee8c7a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 81/82] fix: rounding to multiples of a unit such as 2.5 keeps
 their fractions

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 7b6c408..2c110d0 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -168,7 +168,7 @@ def _to_multiple(value, unit, rounding):
     # in decimal, where 0.29 is a multiple of 0.01
     unit = Decimal(str(unit))
     multiple = rounding(Decimal(str(value)) / unit) * unit
-    return float(multiple) if unit < 1 else int(multiple)
+    return float(multiple) if unit % 1 else int(multiple)
 
 
 def round_to_nearest(value, round_value=1000):
-- 
2.43.0


From e0b0c350c5ee9af0af9737e46c5147201b4bf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 82/82] fix: limiting cities by radius keeps a column of the
 user's called dist

---
 impactutils/mapping/city.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index e3f6e44..2c4fb5c 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -253,9 +253,7 @@ class Cities(object):
         dist = geodetic_distance(lon, lat,
                                  self._dataframe['lon'],
                                  self._dataframe['lat'])
-        newdf['dist'] = dist
-        newdf = newdf[newdf['dist'] <= radius]
-        del newdf['dist']
+        newdf = newdf[dist <= radius]
         return type(self)(newdf)
 
     def limitByPopulation(self, pop, minpop=0):
-- 
2.43.0

