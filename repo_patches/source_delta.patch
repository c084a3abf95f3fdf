From 27d53bf031925534c97089c3355d46445482c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 01/62] fix: do not parallelize grep with context or
 match-count options

The guard for -A/-B/-C/-m only skipped the case analysis; the concatenating
parallelizers were appended nevertheless.
---
 .../ParallelizabilityInfoGeneratorGrep.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..4239feb 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -20,10 +20,10 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # assumption: RR not over file boundaries
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
-    # for -m, we only do IF
+    # for -m, we only do IF; so -A, -B, -C and -m get no parallelizer within file boundaries
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From 78133c12cc092d2b1974f8231be427a2d89eae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 02/62] fix: treat the long spellings of grep options as
 aliases of the short ones

--regexp, --max-count, --after-context, --before-context, --context,
--devices and --directories were listed as unrelated options, so the
generators, which look for the short names, ignored them.
---
 .../command_flag_option_info/data/grep.json   | 21 -------------------
 1 file changed, 21 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..52bbf53 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -129,9 +129,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -150,9 +147,6 @@
         ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +156,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +179,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From 5643a717ea9b9130bfc2a4fab459974affc1e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 03/62] fix: grep --color/--colour do not consume the next word

Their argument is optional and can only be attached, so 'grep --color auto p f'
was parsed as if 'auto' were not the pattern.
---
 .../parser/command_flag_option_info/data/grep.json   | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 52bbf53..31bfafd 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -99,6 +99,10 @@
         [
             "--no-group-separator"
         ],
+        [
+            "--color",
+            "--colour"
+        ],
         [
             "-a",
             "--text"
@@ -137,14 +141,6 @@
             "--file",
             ["FILE", "CONFIG_INPUT"]
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
-        [
-            "--colour",
-            "WHEN"
-        ],
         [
             "-m",
             "--max-count",
-- 
2.43.0


From 92e7cd0803825b7268998267f975bf5d7e0d63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 04/62] fix: list uniq -f, -s and -w as options

They were bare strings in the flag list, which made '-', 'f', 's' and 'w'
flags (so operands of that name vanished) and their number an operand.
---
 .../parser/command_flag_option_info/data/uniq.json          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..b570198 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,10 @@
         [
             "-D"
         ],
-        "-f",
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +23,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -39,6 +36,7 @@
             "METHOD"
         ],
         [
+            "-f",
             "--skip-fields",
             "N"
         ],
@@ -47,10 +45,12 @@
             "METHOD"
         ],
         [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From c30d048e91f65519c929a49870b8846bb697fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 05/62] fix: uniq --all-repeated/--group do not consume the
 next word

Their argument is optional and can only be attached with '='.
---
 .../parser/command_flag_option_info/data/uniq.json | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index b570198..d673ba9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -28,22 +28,20 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--all-repeated"
+        ],
+        [
+            "--group"
         ]
     ],
     "option": [
-        [
-            "--all-repeated",
-            "METHOD"
-        ],
         [
             "-f",
             "--skip-fields",
             "N"
         ],
-        [
-            "--group",
-            "METHOD"
-        ],
         [
             "-s",
             "--skip-chars",
-- 
2.43.0


From fa5d83d29d72d88f40385b6d8ed238d0510cbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 06/62] fix: list tail -n, -c and -s as options

As flags, the count of 'tail -n 5 f' became an input file.
---
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..967cd21 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -48,8 +37,19 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
+        ],
+        [
+            "-c",
+            "--bytes",
+            "NUM"
         ]
     ]
 }
-- 
2.43.0


From 8d4147c868d8b7ae086548e95a81754712ce2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 07/62] fix: diff -c, -u, --context, --unified and --color take
 no separate argument

'diff -u a b' was parsed as an option '-u a' and one operand.
---
 .../command_flag_option_info/data/diff.json   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..affefc3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -112,19 +112,26 @@
         [
             "-v",
             "--version"
+        ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
+        [
+            "--color"
         ]
     ],
     "option": [
         [
-            "-c",
             "-C",
-            "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
-            "--unified",
             "NUM"
         ],
         [
@@ -186,10 +193,6 @@
             "--horizon-lines",
             "NUM"
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
         [
             "--palette",
             "PALETTE"
-- 
2.43.0


From b1bd20de25a520bf05826cb323c5f964e2ed0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 08/62] fix: mv --backup does not consume the next word

It was listed both as a flag and as an option; its argument is optional
and can only be attached.
---
 pash_annotations/parser/command_flag_option_info/data/mv.json | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b53afa..8b3d71a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -43,10 +43,6 @@
         ]
     ],
     "option": [
-        [
-            "--backup",
-            "CONTROL"
-        ],
         [
             "-S",
             "--suffix",
-- 
2.43.0


From ffd7860476eb35bd4bbfcdfecd2ff51485e50d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 09/62] fix: rm --interactive/--preserve-root do not consume
 the next word

'rm --preserve-root f' was parsed as having no operand, so that the removal
of f was not reported.
---
 .../parser/command_flag_option_info/data/rm.json    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..5d53b73 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -34,16 +34,15 @@
         ],
         [
             "--version"
-        ]
-    ],
-    "option": [
+        ],
         [
-            "--interactive",
-            "WHEN"
+            "--interactive"
         ],
         [
-            "--preserve-root",
-            "all"
+            "--preserve-root"
         ]
+    ],
+    "option": [
+
     ]
 }
-- 
2.43.0


From 401d21ebb8e742ae1ffbc72034d624f1a059fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 10/62] fix: tee --output-error does not consume the next word

'tee --output-error f' was parsed as having no output file.
---
 .../parser/command_flag_option_info/data/tee.json         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..c4cc055 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -16,12 +16,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--output-error"
         ]
     ],
     "option": [
-        [
-            "--output-error",
-            "MODE"
-        ]
+
     ]
 }
-- 
2.43.0


From 0b74da3a6a8f6c8bee8520e2ead77d53b7426d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 11/62] fix: mkfifo -m takes an argument and --context does not

'mkfifo -m 600 p' reported 600 as a created pipe.
---
 .../parser/command_flag_option_info/data/mkfifo.json  | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..98d6c48 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,8 +1,5 @@
 {
     "flag": [
-        [
-            "-m"
-        ],
         [
             "-Z"
         ],
@@ -11,16 +8,16 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--context"
         ]
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
-        ],
-        [
-            "--context",
-            "CTX"
         ]
     ]
 }
-- 
2.43.0


From 03e85f358b8aaf68acd7ff370c1877d76fffaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 12/62] fix: list the awk options that take an argument as
 options

With -F as a flag and -v unknown, 'awk -F : prog f' took ':' for the program
and the program for an input file.
---
 .../command_flag_option_info/data/awk.json    | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..4297fc2 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -65,7 +45,7 @@
             "--use-lc-numeric"
         ],
         [
-            "-ofile",
+            "-o",
             "--pretty-print"
         ],
         [
@@ -102,6 +82,36 @@
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "ASSIGNMENT"
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "EXT"
         ]
     ]
 }
-- 
2.43.0


From 6a1d286c2910372ef1cc7561db0a11f3b3c77ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 13/62] fix: xargs options: -0, -s, --process-slot-var and the
 optional-argument ones

-0 was missing, -s and --process-slot-var take an argument, and -e/-i/-l
(--eof/--replace/--max-lines) never consume the next word.
---
 .../command_flag_option_info/data/xargs.json  | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..232603a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,6 +1,7 @@
 {
     "flag": [
         [
+            "-0",
             "--null"
         ],
         [
@@ -11,17 +12,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -38,6 +32,18 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
         ]
     ],
     "option": [
@@ -53,20 +59,14 @@
         ],
         [
             "-E",
-            "-e",
-            "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
-            "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
-            "--max-lines",
             "max-lines"
         ],
         [
@@ -78,6 +78,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "MAX-CHARS"
+        ],
+        [
+            "--process-slot-var",
+            "VAR"
         ]
     ]
 }
-- 
2.43.0


From 5569c8d1de062a6b65e039d14fc8d7eb8981ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 14/62] fix: sed -e/-f take an argument; sed only reads stdin
 without files

-e, -f were listed as flags, so the script became an operand and 'sed -e S f'
declared S as an input file; -i was unknown and its rewriting of files not
reported; stdin was declared as read even if there are input files. Whether
sed can be parallelized was decided on the first operand, which is an input
file with -e/-f, and line number addresses were taken to be stateless.
---
 .../InputOutputInfoGeneratorSed.py            |  7 ++++-
 .../ParallelizabilityInfoGeneratorSed.py      | 18 ++++++++++---
 .../command_flag_option_info/data/sed.json    | 27 +++++++++----------
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..650b415 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,16 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
+        # -i rewrites its input files, which cannot be expressed as streaming
+        if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
+            raise Exception('sed with -i is considered side-effectful')
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             self.set_first_operand_as_config_arg_type_string()
             self.all_but_first_operand_is_streaming_input()
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
         else:
             self.all_operands_are_streaming_inputs()
+            self.if_no_operands_given_stdin_implicitly_used()
 
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..afca14f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -8,10 +8,20 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        # scripts are given with -e and -f, and as first operand only if there is neither of them
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i", "-z", "--debug"]):
+            return
+        scripts = [str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-e"])]
+        if len(scripts) == 0:
+            scripts = [self.get_first_operand_name_as_string()]
+        if all(self.is_script_applicable_to_each_line_separately(script) for script in scripts):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    @staticmethod
+    def is_script_applicable_to_each_line_separately(script: str) -> bool:
+        # a line number or $ as address refers to the position in the whole input
+        if script.lstrip()[:1].isdigit() or script.lstrip().startswith("$"):
+            return False
+        # TODO: Logic copied from PaSh
+        return script.startswith("s") or not ("d" in script or "q" in script)
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..7205a8b 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -47,20 +39,27 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-i",
+            "--in-place"
         ]
     ],
     "option": [
-        [
-            "--in-place",
-            "SUFFIX"
-        ],
         [
             "-l",
+            "--line-length",
             "N"
         ],
         [
-            "--line-length",
-            "N"
+            "-e",
+            "--expression",
+            "SCRIPT"
+        ],
+        [
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ]
     ]
 }
-- 
2.43.0


From 1d3a6098c320f38caafe219d3953e486cb314841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 15/62] fix: do not claim that recursive grep without files
 reads stdin

grep -r searches the working directory then. As the comment in the generator
suggests, no information is provided in this case.
---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..bb91997 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -20,6 +20,11 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # --help and --version overrules -q (and no actual result returned) but we assume no help/version
         if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
             self.set_implicit_use_of_stdout()
+        number_of_pattern_operands = 0 if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]) else 1
+        if self.get_operand_list_length() <= number_of_pattern_operands and \
+                self.does_flag_option_list_contain_at_least_one_of(["-r", "-R", "-d"]):
+            # without a file, it is the working directory and not stdin which is searched recursively
+            raise Exception("recursive grep without file name not handled")
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
-- 
2.43.0


From cf546ade9517e145097efceb030bac1fe216cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 16/62] fix: do not parallelize grep with -z, -H or recursive
 search

Input is split at newlines, which are not the record separator with -z, and
the name that -H prints is the one of the chunk instead of the input file.
---
 .../ParallelizabilityInfoGeneratorGrep.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index 4239feb..f784e97 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -19,11 +19,12 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # by checking, -L and -l overrule -c overrule -b and -n; output of -n always precedes output of -b
     # assumption: RR not over file boundaries
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
+    # for -z, the records are not lines and with -H (or -r, -R, -d), the output contains names of input files
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
     # for -m, we only do IF; so -A, -B, -C and -m get no parallelizer within file boundaries
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From bdc7915fcb566a12dc4a4a6d16a8832be1a7eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 17/62] fix: Operand.contains_new_line/contains_null_char
 missed a match at the start

str.find returns 0 there, so tr -s '\n' was considered not to squeeze newlines.
---
 pash_annotations/datatypes/BasicDatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..2660a97 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,11 +111,11 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        return name_as_string.find(r"\n") >= 0
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return name_as_string.find(r"\0") >= 0
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From 012b8a49855fffffba3b32266e2668f5fda0fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 18/62] fix: Operand.contains_new_line misses other spellings
 of a newline in a tr set

tr -s '[:space:]' was considered not to squeeze newlines, and
tr -cd '[:space:]' to delete them.
---
 pash_annotations/datatypes/BasicDatatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index 2660a97..e1a96e6 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,7 +111,8 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") >= 0
+        return any(name_as_string.find(spelling) >= 0
+                   for spelling in [r"\n", "\n", r"\012", "[:space:]", "[:cntrl:]"])
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-- 
2.43.0


From f23c3d529e5a218d90321f10ca5c0e5be4745221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 19/62] fix: tr -s also squeezes what newlines are translated
 to; -d deletes the first set

For tr -s '\n' ' ', the blanks at both sides of a chunk boundary have to be
squeezed; for tr -ds '\n' a, newlines are deleted. Both were concatenated.
---
 .../ParallelizabilityInfoGeneratorTr.py               | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..e5c94d0 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -24,10 +24,12 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         # res = self.does_last_set_effectively_contain_newline()
         # print("res: " + res)
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
-                                     self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
+                                     self.does_first_set_effectively_contain_newline()  # with -s, the second set is squeezed
         # check for squeezing newlines
         does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
+                                      (self.does_last_set_effectively_contain_newline() or
+                                       # newlines are translated to elements of the last set
+                                       self.does_first_set_effectively_contain_newline())
         if does_delete_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
@@ -51,4 +53,7 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         else:  # '-c' (if existent) does not refer to the given set
             return (last_operand_contains_newline or last_operand_contains_null_char)
 
-
+    def does_first_set_effectively_contain_newline(self) -> bool:
+        first_operand: Operand = self.cmd_inv.operand_list[0]
+        first_operand_contains_newline: bool = first_operand.contains_new_line() or first_operand.contains_null_char()
+        return first_operand_contains_newline != self.does_flag_option_list_contain_at_least_one_of(["-c"])
-- 
2.43.0


From 39beceb991bf59ca2c710785bb7d836e018407b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 20/62] fix: do not parallelize xargs if its items are not
 separated by newlines

With -0 or -d, an item can contain newlines, -E/-e end the input early and -a
reads a file instead of the stream that is split.
---
 .../ParallelizabilityInfoGeneratorXargs.py                   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
index 0d459ab..8b175c9 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
@@ -3,6 +3,11 @@ from pash_annotations.annotation_generation.annotation_generators.Parallelizabil
 class ParallelizabilityInfoGeneratorXargs(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        # the following options change what separates or ends the items, or where they are read from, so
+        # splitting the input at newlines is only fine if these are the separator
+        if self.does_flag_option_list_contain_at_least_one_of(["-0", "-a", "-E", "-e"]) or \
+                any(str(option.get_arg()) not in [r"\n", "\n"] for option in self.get_flag_option_list_filtered_with(["--delimiter"])):
+            return
         # in original, there is a case distinction but same info
         self.append_to_parallelizer_list_cc_seq_conc()
         self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0


From ca82e1056d0e9adc130f60e5f87f0d0687aa567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 21/62] fix: get_inferred_parallelizer_list must not change the
 info itself

Each call appended the inferred parallelizers to parallelizer_list, so that
unpacking an info twice returned different lists.
---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..217184e 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list)
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 44783b5ef213470f323b219699df9e14c46a98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 22/62] fix: compare options with IO variables structurally

OptionWithIOVar did not inherit equality as its siblings do, so equal command
invocations were different as soon as they had an option.
---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..b81791b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,9 +1,9 @@
 from typing import Union
-from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType, BaseClassForBasicDatatypes
 
 IOVar = int
 
-class OptionWithIOVar:
+class OptionWithIOVar(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str, option_arg: Union[IOVar, ArgStringType]) -> None:
         self.option_name : str = name
-- 
2.43.0


From 67cdc5317db7fc344fe4f1b4bb04bb0a7f7ef4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 23/62] fix: traverse the IO variables in option arguments

flat_map_anything_non_names only descended into OptionWithIO, but the options
whose argument is an IO variable are OptionWithIOVar, so that e.g. the output
of 'sort -o' was not found when substituting, generating or removing outputs.
---
 .../datatypes/CommandInvocationWithIOVars.py             | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..cd3ae1b 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, OptionWithIO) or isinstance(flagoption, OptionWithIOVar):
+                # no result means that the argument shall be removed which is only possible with the option
+                new_flag_option_list += [type(flagoption)(flagoption.option_name, new_option_arg)
+                                         for new_option_arg in function_to_apply(flagoption.option_arg)]
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
@@ -172,7 +173,6 @@ class CommandInvocationWithIOVars:
         return cmd_inv_with_io_vars
 
     def remove_streaming_inputs(self):
-        # TODO: check whether this removes options with streaming input
         def function_to_apply(el):
            if isinstance(el, int) and self.access_map[el].is_stream_input():
                self.access_map.pop(el)
@@ -182,7 +182,6 @@ class CommandInvocationWithIOVars:
         self.flat_map_anything_non_names(function_to_apply)
 
     def remove_streaming_outputs(self):
-        # TODO: check whether this removes options with streaming output
         def function_to_apply(el):
             if isinstance(el, int) and self.access_map[el].is_stream_output():
                 self.access_map.pop(el)
-- 
2.43.0


From f7febbea03e219de329c9f5d3fadee4cbf91d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 24/62] fix: the aggregator for sort -o has to write to the
 given output

Without an implicit output there was nothing to replace, so the aggregator
obtained for 'sort -o out' had no output at all.
---
 .../datatypes/parallelizability/AggregatorSpec.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..b588b26 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -226,15 +226,17 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
             assert(len(inputs_from) == 2)
         aggregator_cmd_inv = deepcopy(original_cmd_invocation)
-        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(original_cmd_invocation.flag_option_list)
+        aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs() # might be given with an option, e.g. sort -o
+        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(aggregator_cmd_inv.flag_option_list)
         # access map modifications
         # Hard-coded how to provide input and get output -> TODO: move to spec
-        aggregator_cmd_inv.remove_streaming_inputs()
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
-- 
2.43.0


From fc427b4ae22e0396b357d18cddc2fd3c7069974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 25/62] fix: annotation_cli --save_to writes new files and
 keeps existing ones

The test was inverted: an existing file was overwritten and a new one refused.
And the path was taken relative to the script instead of where it is called from.
---
 pash_annotations/annotation_cli.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..da09284 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -1,4 +1,5 @@
 import argparse
+import os
 from typing import Optional
 
 # create parser
@@ -22,21 +23,12 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
 shall_we_write_to_file = False
 if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(script_prefix + where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
+    shall_we_write_to_file = not os.path.lexists(where_to_save)
     if not shall_we_write_to_file:
         print("There exists a file on the provided path so the result will be output (only). ")
 
@@ -66,7 +58,7 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
+    text_file = open(where_to_save, "w+")
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From c73a58e2824dbea5d45c209c11388ad67fd20fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 26/62] fix: use the primary name of flags that are given in a
 cluster

'tr -Cs' was parsed to -C and -s while 'tr -C -s' yields -c and -s, so that the
generators, which look for the primary name, overlooked the complement.
---
 pash_annotations/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..f495145 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -40,7 +40,7 @@ def parse(command) -> CommandInvocationInitial:
             i += 1  # since we consumed another term for the argument
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
         else:
             break  # next one is Operand, and we keep these in separate list
-- 
2.43.0


From 5640e13a3a58af5043f766ac9c4eeada49483d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 27/62] fix: col -l takes the number of lines as argument

---
 .../parser/command_flag_option_info/data/col.json    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
-- 
2.43.0


From dcbf742c67935de8848e55023897d316eee40836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 28/62] fix: parse option arguments attached to their option

'head -n5 f', 'cut -d: -f1 f' and 'sort --key=2 f' were parsed as having the
operands -n5, -d:, -f1 and --key=2, which then were declared as input files.
The README states that terms are split at equal signs.
---
 pash_annotations/parser/parser.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index f495145..be352ca 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -1,4 +1,4 @@
-from typing import Set, Literal, List, Dict
+from typing import Set, Literal, List, Dict, Optional, Tuple
 
 import shlex
 from pash_annotations.datatypes.BasicDatatypes import FlagOption, Flag, Option, Operand, FileName, ArgStringType
@@ -42,6 +42,14 @@ def parse(command) -> CommandInvocationInitial:
             for split_el in list(potential_flag_or_option[1:]):
                 flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
+        elif (attached := split_attached_option(potential_flag_or_option, set_of_all_flags, set_of_all_options)) is not None \
+                and (attached[2] is not None or (i+1) < len(parsed_elements_list)):
+            flag_names, option_name, option_arg = attached
+            flag_option_list += [Flag(dict_flag_to_primary_repr.get(flag_name, flag_name)) for flag_name in flag_names]
+            if option_arg is None:
+                option_arg = parsed_elements_list[i+1]
+                i += 1  # since we consumed another term for the argument
+            flag_option_list.append(Option(dict_option_to_primary_repr.get(option_name, option_name), option_arg))
         else:
             break  # next one is Operand, and we keep these in separate list
         i += 1
@@ -119,6 +127,22 @@ def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
     if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
         return False
     return all(f'-{split_el}' in set_of_all_flags for split_el in list(potential_flag_or_option[1:]))
+
+# for an option whose argument is attached (--lines=5 or -n5), possibly at the end of a cluster of flags (-qn5);
+# the argument is None if it is the next term (-qn 5); returns None if it is nothing of this kind
+def split_attached_option(potential_option: str, set_of_all_flags: Set[str], set_of_all_options: Set[str]) \
+        -> Optional[Tuple[List[str], str, Optional[str]]]:
+    if potential_option.startswith('--'):
+        option_name, equal_sign, option_arg = potential_option.partition('=')
+        return ([], option_name, option_arg) if equal_sign and option_name in set_of_all_options else None
+    if potential_option.startswith('-'):
+        for j in range(1, len(potential_option)):
+            name = f'-{potential_option[j]}'
+            if name in set_of_all_options:
+                return [f'-{flag}' for flag in potential_option[1:j]], name, potential_option[j+1:] or None
+            if name not in set_of_all_flags:
+                break
+    return None
 #
 # class WhichClassForArg(Enum):
 #     FILENAME = 'filename'
-- 
2.43.0


From 44dedd408626f99c9ca11d4e190098d053c48893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 29/62] fix: provide no input-output information if an option
 is left among the operands

Options that are unknown or follow an operand ('cat f -n', 'head -5 f',
'cat -- f') were declared as input files with that name, and files they refer
to were not declared.
---
 .../InputOutputInfoGenerator_Interface.py        | 16 +++++++++++++++-
 pash_annotations/config/definitions.py           |  5 +++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index d34b4b8..87aa7a3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -1,6 +1,7 @@
 from typing import List, Tuple, Union, Literal, Dict
 
-from pash_annotations.config.definitions import INDICATORS_FOR_FILENAMES
+from pash_annotations.config.definitions import INDICATORS_FOR_FILENAMES, COMMANDS_WITH_OPTIONS_ANYWHERE, \
+    COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS
 
 from pash_annotations.datatypes.BasicDatatypes import Flag, Option, WhichClassForArg
 from pash_annotations.datatypes.AccessKind import AccessKind, get_access_from_string
@@ -25,6 +26,7 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
 
     def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
         super().__init__(cmd_invocation=cmd_invocation)
+        self.check_that_no_option_is_among_operands()
         flagoption_list_typer: List[Union[Tuple[Literal[WhichClassForArg.FILESTD], AccessKind],
                                                     Tuple[Literal[WhichClassForArg.ARGSTRING], None],
                                                     Tuple[Literal[WhichClassForArg.PLAINSTRING], None]]] \
@@ -34,6 +36,18 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
                                                     number_of_operands=len(cmd_invocation.operand_list)
                                                   )
 
+    # An operand that looks like an option is one that is not known, comes after an operand or is "--".
+    # What the operands are used for cannot be told then, so no information is provided (exception caught by caller).
+    def check_that_no_option_is_among_operands(self) -> None:
+        potential_options = self.cmd_inv.operand_list
+        if self.cmd_inv.cmd_name in COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS:
+            potential_options = potential_options[:1]
+        elif self.cmd_inv.cmd_name not in COMMANDS_WITH_OPTIONS_ANYWHERE:
+            return
+        for operand in potential_options:
+            if str(operand.get_name()).startswith("-") and str(operand.get_name()) != "-":
+                raise Exception(f"operand looks like an option: {operand}")
+
     @abstractmethod
     def generate_info(self) -> None:
         pass
diff --git a/pash_annotations/config/definitions.py b/pash_annotations/config/definitions.py
index e3fed03..afec4bd 100644
--- a/pash_annotations/config/definitions.py
+++ b/pash_annotations/config/definitions.py
@@ -4,6 +4,11 @@ import sys
 ### which argument strings in command_flag_option_info/data/*.json files are interpreted as filenames/directories
 INDICATORS_FOR_FILENAMES = ["FILE", "DIR", "DIRECTORY"]
 
+### where commands look for options
+COMMANDS_WITH_OPTIONS_ANYWHERE = ["cat", "col", "comm", "cut", "diff", "grep", "head", "mkfifo", "mv", "rm", "sed", "sort",
+                                  "tail", "tee", "uniq", "wc"]
+COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS = ["awk", "tr", "xargs"]
+
 ### directory paths
 ROOT_DIR = os.path.realpath(os.path.join(os.path.dirname(__file__), '../..'))
 ANNOTATION_GENERATORS = "annotation_generation.annotation_generators"
-- 
2.43.0


From e8185c0bedfb06b92495aa3dcb8db52cbfe21350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 30/62] fix: list --truncate-set1 as the long spelling of tr -t

---
 pash_annotations/parser/command_flag_option_info/data/tr.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tr.json b/pash_annotations/parser/command_flag_option_info/data/tr.json
index 8e8b092..53b9d81 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tr.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tr.json
@@ -14,7 +14,8 @@
             "--squeeze-repeats"
         ],
         [
-            "-t"
+            "-t",
+            "--truncate-set1"
         ],
         [
             "--help"
-- 
2.43.0


From fb13d2fb99bc5b4d09ed6b3dbf895a26b79b3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 31/62] fix: list tail -F

---
 .../parser/command_flag_option_info/data/tail.json             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 967cd21..b2cbb63 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -25,6 +25,9 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-F"
         ]
     ],
     "option": [
-- 
2.43.0


From bb02143f890ad217125c4f821ebc2b6a97f79ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 32/62] fix: list mv --debug and --no-copy

---
 .../parser/command_flag_option_info/data/mv.json            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b3d71a..8216df5 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -40,6 +40,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--debug"
+        ],
+        [
+            "--no-copy"
         ]
     ],
     "option": [
-- 
2.43.0


From 4f06618579aa49717fe2910290d529cfd1dea020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 33/62] fix: list wc --total, which takes an argument

---
 pash_annotations/parser/command_flag_option_info/data/wc.json | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/wc.json b/pash_annotations/parser/command_flag_option_info/data/wc.json
index b39fb51..174c602 100644
--- a/pash_annotations/parser/command_flag_option_info/data/wc.json
+++ b/pash_annotations/parser/command_flag_option_info/data/wc.json
@@ -31,6 +31,10 @@
         [
             "--files0-from",
             "GLOB"
+        ],
+        [
+            "--total",
+            "WHEN"
         ]
     ]
 }
-- 
2.43.0


From 18abbeb0b04aec10dbcdb064dd06a3ac59051a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 34/62] fix: list the diff group and line format options

---
 .../command_flag_option_info/data/diff.json   | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index affefc3..ac66238 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -196,6 +196,34 @@
         [
             "--palette",
             "PALETTE"
+        ],
+        [
+            "--old-group-format",
+            "GFMT"
+        ],
+        [
+            "--new-group-format",
+            "GFMT"
+        ],
+        [
+            "--unchanged-group-format",
+            "GFMT"
+        ],
+        [
+            "--changed-group-format",
+            "GFMT"
+        ],
+        [
+            "--old-line-format",
+            "LFMT"
+        ],
+        [
+            "--new-line-format",
+            "LFMT"
+        ],
+        [
+            "--unchanged-line-format",
+            "LFMT"
         ]
     ]
 }
-- 
2.43.0


From dda705d9f766add0201c474f9e2a93bedcaf8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 35/62] fix: awk -e and -E also give the program, so all
 operands are files

---
 .../annotation_generators/InputOutputInfoGeneratorAwk.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..995740d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -7,7 +7,7 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
-- 
2.43.0


From 2d2cf7c439278848e93594614c5e838118310f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 36/62] fix: parse commands whose name cannot be a file name

---
 pash_annotations/parser/util_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..760ac58 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -7,7 +7,7 @@ def get_json_data(cmd_name):
     # get man page data for command as dict
     try:
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except OSError: # there is no file, or there cannot be one with that name
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0


From cc5617bbdcede1b7e4ae769dc123607c615606b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 37/62] fix: drop replaced implicit streams from access map of
 mapper with auxiliary outputs

---
 .../datatypes/parallelizability/MapperSpec.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..6f61277 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,9 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_use in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                if implicit_use is not None:
+                    mapper.access_map.pop(implicit_use)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From ba8fcc6530c8b040af90e9276c840521414b2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 38/62] fix: do not parallelize grep which selects its inputs
 by name

---
 .../ParallelizabilityInfoGeneratorGrep.py                     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index f784e97..d549397 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -21,10 +21,12 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -z, the records are not lines and with -H (or -r, -R, -d), the output contains names of input files
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
+    # with --include and --exclude (also from file), the name of the input decides whether it is searched at all
     # for -m, we only do IF; so -A, -B, -C and -m get no parallelizer within file boundaries
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d",
+                                                                  "--include", "--exclude", "--exclude-from", "--exclude-dir"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From 3f79e431615ce4b2390d2eea2ffba0a6f7a0d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 39/62] fix: do not parallelize sort with random order given by
 --sort or a key

---
 .../ParallelizabilityInfoGeneratorSort.py                  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..8f7c262 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -16,6 +16,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
         self.set_commutative()
         if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
             pass    # no parallelization
+        elif self.is_order_random():
+            pass    # no parallelization, same as -R
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
@@ -27,3 +29,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_order_random(self) -> bool:
+        # -R may also be given as (abbreviated) "random" to --sort, or as modifier of a key
+        return any("random".startswith(str(option.get_arg())) for option in self.get_flag_option_list_filtered_with(["--sort"])) or \
+               any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 5ba4c3d13fce95f659a1e21042c0048afd13b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 40/62] fix: same for custom_sort

---
 .../ParallelizabilityInfoGeneratorCustomSort.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..5970ada 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -15,6 +15,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
         self.set_commutative()
         if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
             pass    # no parallelization
+        elif self.is_order_random():
+            pass    # no parallelization, same as -R
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
@@ -26,3 +28,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_order_random(self) -> bool:
+        # -R may also be given as (abbreviated) "random" to --sort, or as modifier of a key
+        return any("random".startswith(str(option.get_arg())) for option in self.get_flag_option_list_filtered_with(["--sort"])) or \
+               any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 3feb938a3fbbba94c9fc5a0a71abdb5deea258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 41/62] fix: no placeholder aggregator with auxiliary inputs if
 not implemented

---
 .../datatypes/parallelizability/AggregatorSpec.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index b588b26..66ee20c 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -303,6 +303,8 @@ class AggregatorSpecFuncStringRepresentation(AggregatorSpec):
                                              output_to: IOVar,
                                              aux_outputs_to: List[IOVar]
                                              ):
+        if not self.is_implemented:
+            return None
         assert(len(fst_aux_inputs_from) == len(snd_aux_inputs_from))
         assert(len(fst_aux_inputs_from) == len(aux_outputs_to))
         agg_cmd_inv = parse(self.cmd_inv_as_str)
-- 
2.43.0


From 5ee83f82959561093f5937ae21b840878a066e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 42/62] fix: comparing a splitter with something else

---
 .../datatypes/parallelizability/Splitter.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
index 6d5930d..5bdad01 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
@@ -1,5 +1,7 @@
 from enum import Enum
 
+from pash_annotations.util_standard import standard_eq
+
 
 class SplitterKindEnum(Enum):
     INDIV_FILES = 1
@@ -14,7 +16,7 @@ class Splitter:
         self.kind = kind
 
     def __eq__(self, other) -> bool:
-        return self.kind == other.kind
+        return standard_eq(self, other)
 
     def __repr__(self) -> str:
         return f'{self.kind}'
-- 
2.43.0


From f75d9001bb08e3f599a197865d49ac2d69b7fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 43/62] fix: newlines in ranges and other spellings in tr sets

---
 .../ParallelizabilityInfoGeneratorTr.py       |  8 +++++---
 pash_annotations/datatypes/BasicDatatypes.py  | 19 ++++++++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index e5c94d0..6903707 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -49,11 +49,13 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         last_operand_contains_newline: bool = last_operand.contains_new_line()
         last_operand_contains_null_char: bool = last_operand.contains_null_char()
         if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
+            return not last_operand_contains_newline
         else:  # '-c' (if existent) does not refer to the given set
             return (last_operand_contains_newline or last_operand_contains_null_char)
 
     def does_first_set_effectively_contain_newline(self) -> bool:
         first_operand: Operand = self.cmd_inv.operand_list[0]
-        first_operand_contains_newline: bool = first_operand.contains_new_line() or first_operand.contains_null_char()
-        return first_operand_contains_newline != self.does_flag_option_list_contain_at_least_one_of(["-c"])
+        if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
+            return not first_operand.contains_new_line()
+        else:
+            return first_operand.contains_new_line() or first_operand.contains_null_char()
diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e1a96e6..90fa46b 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -4,6 +4,8 @@ from pash_annotations.util_standard import standard_eq, standard_repr
 
 from enum import Enum
 
+import re
+
 from abc import ABC, abstractmethod
 
 # note that we have individual classes since aliasing does not provide as much support
@@ -109,10 +111,21 @@ class Operand(BaseClassForBasicDatatypes):
     def get_name(self) -> str:
         return self.name
 
+    # as set of characters for tr, so also by octal number, class or in a range
     def contains_new_line(self):
-        name_as_string = str(self.name)
-        return any(name_as_string.find(spelling) >= 0
-                   for spelling in [r"\n", "\n", r"\012", "[:space:]", "[:cntrl:]"])
+        elements = re.findall(r"\[:\w+:\]|\\[0-7]{1,3}|\\.|.", str(self.name), re.DOTALL)
+        codes = [self.get_code_of_set_element(element) for element in elements]
+        in_range = any(elements[i] == "-" and 0 <= codes[i-1] <= ord("\n") <= codes[i+1] for i in range(1, len(elements) - 1))
+        return in_range or ord("\n") in codes or "[:space:]" in elements or "[:cntrl:]" in elements
+
+    @staticmethod
+    def get_code_of_set_element(element):
+        if element[0] != "\\" or len(element) == 1:
+            return ord(element) if len(element) == 1 else -1    # single character or class
+        elif element[1] in "01234567":
+            return int(element[1:], 8)
+        else:
+            return {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13}.get(element[1], ord(element[1]))
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-- 
2.43.0


From b25c27b87fd39c718dc65e3091522d1c80ebb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 44/62] fix: do not parallelize sort --debug, which annotates
 the output

---
 .../ParallelizabilityInfoGeneratorCustomSort.py                 | 2 +-
 .../annotation_generators/ParallelizabilityInfoGeneratorSort.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index 5970ada..54215e3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -13,7 +13,7 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
     def generate_info(self) -> None:
         # copied from sort
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]):
             pass    # no parallelization
         elif self.is_order_random():
             pass    # no parallelization, same as -R
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index 8f7c262..3330dbe 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,7 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]):
             pass    # no parallelization
         elif self.is_order_random():
             pass    # no parallelization, same as -R
-- 
2.43.0


From a3dcf9b10141ad2fabc31b2a46bcc1f8e4f8b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 45/62] fix: rm -v writes to stdout

---
 .../annotation_generators/InputOutputInfoGeneratorRm.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
index 1dacfc9..918e84b 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
@@ -4,4 +4,6 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorRm(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.all_operands_are_other_outputs()
\ No newline at end of file
+        self.all_operands_are_other_outputs()
+        # removed files are reported on stdout
+        self.set_implicit_use_of_stdout(self.does_flag_option_list_contain_at_least_one_of(["-v"]))
-- 
2.43.0


From 68c00930e48e192c9ec84bf93f9cd7e872fc2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 46/62] fix: do not overwrite a file created while the report
 is made

---
 pash_annotations/annotation_cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index da09284..884f60c 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -58,8 +58,12 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(where_to_save, "w+")
-    text_file.write(result)
-    text_file.close()
-else:
+    try:
+        text_file = open(where_to_save, "x")
+        text_file.write(result)
+        text_file.close()
+    except FileExistsError: # created in the meantime
+        print("There exists a file on the provided path so the result will be output (only). ")
+        shall_we_write_to_file = False
+if not shall_we_write_to_file:
     print(result)
-- 
2.43.0


From 893b30bad8db627e241256b060f32ee9db4761bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 47/62] fix: report command lines with bytes that are no
 characters

---
 pash_annotations/annotation_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 884f60c..0513d01 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -1,5 +1,6 @@
 import argparse
 import os
+import sys
 from typing import Optional
 
 # create parser
@@ -59,11 +60,12 @@ result += str(para_info)
 
 if shall_we_write_to_file:
     try:
-        text_file = open(where_to_save, "x")
+        text_file = open(where_to_save, "x", errors="surrogateescape") # as in the arguments given
         text_file.write(result)
         text_file.close()
     except FileExistsError: # created in the meantime
         print("There exists a file on the provided path so the result will be output (only). ")
         shall_we_write_to_file = False
 if not shall_we_write_to_file:
+    sys.stdout.reconfigure(errors="surrogateescape")
     print(result)
-- 
2.43.0


From 7b39109c2ac483feff5fb464335dc5aa73c364ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 48/62] fix: offer parallelizers only for sed scripts that
 transform each line by itself

---
 .../ParallelizabilityInfoGeneratorSed.py      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index afca14f..808ff3e 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -1,9 +1,22 @@
+import re
+
 from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
 from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import \
     make_parallelizer_round_robin
 from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorSpec import \
     make_aggregator_spec_adj_lines_func_from_string_representation
 
+# Scripts that transform each line by itself: no addresses but a regular expression (line numbers, $ and ranges depend on
+# other lines), and none of the commands that drop lines or end the run (d, q, Q), use other lines (n, N, D, =), keep
+# something for later lines (h, H, x), or use files or run something (r, R, w, W, F, e).
+REGEX_ELEMENT = r"\\.|\[\^?\]?[^]\n]*\]"     # escaped character or bracket expression, which may contain the delimiter
+ADDRESS = rf"/(?:{REGEX_ELEMENT}|[^\\\n[/])*/[IM]*\s*!?\s*"
+SUBSTITUTION = rf"s(?P<s>[^\\\n])(?:{REGEX_ELEMENT}|(?!(?P=s))[^\\\n[])*(?P=s)(?:\\[\s\S]|(?!(?P=s))[^\\\n])*(?P=s)[gpiImM0-9]*"
+TRANSLITERATION = r"y(?P<y>[^\\\n])(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)"
+TEXT = r"[aic]\s*(?:\\\s*)?[^\s\\][^\n\\]*(?=\n|$)"
+COMMAND = rf"(?:(?:{SUBSTITUTION}|{TRANSLITERATION}|[pPlG]|:\s*\w+|[btT]\s*\w*)(?=\s*(?:[;}}\n]|$))|{TEXT})"
+LINEWISE_SCRIPT = rf"(?:[\s;{{}}]*(?:{ADDRESS})?[\s{{]*{COMMAND})*[\s;}}]*"
+
 
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
@@ -20,8 +33,4 @@ class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface)
 
     @staticmethod
     def is_script_applicable_to_each_line_separately(script: str) -> bool:
-        # a line number or $ as address refers to the position in the whole input
-        if script.lstrip()[:1].isdigit() or script.lstrip().startswith("$"):
-            return False
-        # TODO: Logic copied from PaSh
-        return script.startswith("s") or not ("d" in script or "q" in script)
+        return re.fullmatch(LINEWISE_SCRIPT, script) is not None
-- 
2.43.0


From 13af37b1806722f418b333a962c2868a46f4b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 49/62] fix: keep the spellings of an option together in
 generated option data

---
 .../command_flag_option_info/args-to-json.py     | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 222f7ed..93f7f57 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -3,7 +3,6 @@ import sys
 import json
 
 def find_matches(line, past_flags):
-    # TODO: for mv, it recognizes 2 options as flags: -S and -t (manually fixed for now)
     """
     Patterns to match (will be separated with ", "):
        ['--opt ARG', '--opt=ARG', '--opt[=ARG]', '-o ARG', '-O ARG'
@@ -48,18 +47,17 @@ def find_matches(line, past_flags):
 def parse_args(args):
     """
     Flags: ['--flag']; ['-F']; ['-F', '--flag']
-    Options: [('-opt', 'ARG')]; [('--opt', 'ARG')]; [('-opt', 'ARG'), ('--opt', 'ARG')]
+    Options: [('-opt', 'ARG')]; [('--opt', 'ARG')]; [('-opt', 'ARG'), ('--opt', 'ARG')]; ['-opt', ('--opt', 'ARG')]
     """
     args_dict = {"flag": [], "option": []}
     for line_args in args:
-        if all([type(arg)==str for arg in line_args]):
-            args_dict["flag"].append(list(line_args))
+        # all names in a line are spellings of the same flag or option, which has an argument if it is given for any of them
+        names = [arg if type(arg)==str else arg[0] for arg in line_args]
+        option_args = [arg[1] for arg in line_args if type(arg)!=str]
+        if len(option_args) == 0:
+            args_dict["flag"].append(names)
         else:
-            for arg in line_args:
-                if type(arg)==str:
-                    args_dict["flag"].append(arg)
-                else:
-                    args_dict["option"].append(list(arg))
+            args_dict["option"].append(names + option_args[:1])
     return args_dict
 
 def parse_lines(lines):
-- 
2.43.0


From 328821ef06b590d0971915eba69ad279dbe7a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 50/62] fix: a command name with a slash names no data file

---
 pash_annotations/parser/util_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 760ac58..d78506d 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -6,6 +6,8 @@ def get_json_data(cmd_name):
     command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
+        if '/' in cmd_name: # a path to some program, not a path to one of the data files
+            raise FileNotFoundError(command_json_fn)
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
     except OSError: # there is no file, or there cannot be one with that name
         try:
-- 
2.43.0


From e718ec07b4e7ad2bb2ad0fd0457a4eeb98215345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 51/62] fix: keep spellings that differ in dashes only in
 generated option data

---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 93f7f57..5a5529e 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -32,7 +32,7 @@ def find_matches(line, past_flags):
             phrase_parts = re.split(r"\s+", phrases[i])
 
         if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z][a-z-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
-            flag = re.sub("-", '', phrase_parts[0])
+            flag = phrase_parts[0]
             # ignore duplicate flags
             if flag not in past_flags:
                 past_flags.add(flag)
-- 
2.43.0


From db159e6c552fe9657299e151d540e78d5f7a214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 52/62] fix: labels in sed scripts do not continue in the next
 line

---
 .../annotation_generators/ParallelizabilityInfoGeneratorSed.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 808ff3e..f9fa64f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -14,7 +14,7 @@ ADDRESS = rf"/(?:{REGEX_ELEMENT}|[^\\\n[/])*/[IM]*\s*!?\s*"
 SUBSTITUTION = rf"s(?P<s>[^\\\n])(?:{REGEX_ELEMENT}|(?!(?P=s))[^\\\n[])*(?P=s)(?:\\[\s\S]|(?!(?P=s))[^\\\n])*(?P=s)[gpiImM0-9]*"
 TRANSLITERATION = r"y(?P<y>[^\\\n])(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)"
 TEXT = r"[aic]\s*(?:\\\s*)?[^\s\\][^\n\\]*(?=\n|$)"
-COMMAND = rf"(?:(?:{SUBSTITUTION}|{TRANSLITERATION}|[pPlG]|:\s*\w+|[btT]\s*\w*)(?=\s*(?:[;}}\n]|$))|{TEXT})"
+COMMAND = rf"(?:(?:{SUBSTITUTION}|{TRANSLITERATION}|[pPlG]|:[ \t]*\w+|[btT](?:[ \t]*\w+)?)(?=\s*(?:[;}}\n]|$))|{TEXT})"
 LINEWISE_SCRIPT = rf"(?:[\s;{{}}]*(?:{ADDRESS})?[\s{{]*{COMMAND})*[\s;}}]*"
 
 
-- 
2.43.0


From 4008ff20e59bd7c7dacfb01518b185f56bc2eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 53/62] fix: decide about sed scripts without trying
 exponentially many readings

---
 .../ParallelizabilityInfoGeneratorSed.py                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index f9fa64f..dc79e89 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -9,13 +9,14 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 # Scripts that transform each line by itself: no addresses but a regular expression (line numbers, $ and ranges depend on
 # other lines), and none of the commands that drop lines or end the run (d, q, Q), use other lines (n, N, D, =), keep
 # something for later lines (h, H, x), or use files or run something (r, R, w, W, F, e).
-REGEX_ELEMENT = r"\\.|\[\^?\]?[^]\n]*\]"     # escaped character or bracket expression, which may contain the delimiter
-ADDRESS = rf"/(?:{REGEX_ELEMENT}|[^\\\n[/])*/[IM]*\s*!?\s*"
+# No part can match in two ways, so that the time needed does not explode for longer scripts.
+REGEX_ELEMENT = r"\\.|\[(?:\^\]|\^(?!\])|\]|[^]^\n])[^]\n]*\]"     # escaped character or bracket expression, which may contain the delimiter
+ADDRESS = rf"/(?:{REGEX_ELEMENT}|[^\\\n[/])*/[IM]*(?:\s*!)?[\s{{]*"
 SUBSTITUTION = rf"s(?P<s>[^\\\n])(?:{REGEX_ELEMENT}|(?!(?P=s))[^\\\n[])*(?P=s)(?:\\[\s\S]|(?!(?P=s))[^\\\n])*(?P=s)[gpiImM0-9]*"
 TRANSLITERATION = r"y(?P<y>[^\\\n])(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)"
 TEXT = r"[aic]\s*(?:\\\s*)?[^\s\\][^\n\\]*(?=\n|$)"
 COMMAND = rf"(?:(?:{SUBSTITUTION}|{TRANSLITERATION}|[pPlG]|:[ \t]*\w+|[btT](?:[ \t]*\w+)?)(?=\s*(?:[;}}\n]|$))|{TEXT})"
-LINEWISE_SCRIPT = rf"(?:[\s;{{}}]*(?:{ADDRESS})?[\s{{]*{COMMAND})*[\s;}}]*"
+LINEWISE_SCRIPT = rf"(?:[\s;{{}}]*(?:{ADDRESS})?{COMMAND})*[\s;}}]*"
 
 
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
-- 
2.43.0


From f4c0d3b2b43b8b9ac1e0dd49ebbcfcec076b5d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 54/62] fix: text of a, i and c in sed scripts starts in the
 same line or after a backslash, and [ is no delimiter

---
 .../ParallelizabilityInfoGeneratorSed.py                      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index dc79e89..00004f2 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -12,9 +12,9 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 # No part can match in two ways, so that the time needed does not explode for longer scripts.
 REGEX_ELEMENT = r"\\.|\[(?:\^\]|\^(?!\])|\]|[^]^\n])[^]\n]*\]"     # escaped character or bracket expression, which may contain the delimiter
 ADDRESS = rf"/(?:{REGEX_ELEMENT}|[^\\\n[/])*/[IM]*(?:\s*!)?[\s{{]*"
-SUBSTITUTION = rf"s(?P<s>[^\\\n])(?:{REGEX_ELEMENT}|(?!(?P=s))[^\\\n[])*(?P=s)(?:\\[\s\S]|(?!(?P=s))[^\\\n])*(?P=s)[gpiImM0-9]*"
+SUBSTITUTION = rf"s(?P<s>[^\\\n[])(?:{REGEX_ELEMENT}|(?!(?P=s))[^\\\n[])*(?P=s)(?:\\[\s\S]|(?!(?P=s))[^\\\n])*(?P=s)[gpiImM0-9]*"
 TRANSLITERATION = r"y(?P<y>[^\\\n])(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)(?:\\.|(?!(?P=y))[^\\\n])*(?P=y)"
-TEXT = r"[aic]\s*(?:\\\s*)?[^\s\\][^\n\\]*(?=\n|$)"
+TEXT = r"[aic][ \t]*(?:\\\n?[ \t]*)?[^\s\\][^\n\\]*(?=\n|$)"
 COMMAND = rf"(?:(?:{SUBSTITUTION}|{TRANSLITERATION}|[pPlG]|:[ \t]*\w+|[btT](?:[ \t]*\w+)?)(?=\s*(?:[;}}\n]|$))|{TEXT})"
 LINEWISE_SCRIPT = rf"(?:[\s;{{}}]*(?:{ADDRESS})?{COMMAND})*[\s;}}]*"
 
-- 
2.43.0


From afb9dd395a328251bc1bd1f7b27ffc6efc89820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 55/62] fix: uniq -u and -z cannot be parallelized by combining
 adjacent lines

---
 .../ParallelizabilityInfoGeneratorUniq.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
index 87f6959..2358b19 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
@@ -13,14 +13,15 @@ class ParallelizabilityInfoGeneratorUniq(ParallelizabilityInfoGeneratorInterface
     # Which ones do affect parallelizability?
     # base-line: parallelization possible with RR/(CC) x SEQ x ADJF
     # by using the sequential command for ADJF, we handle a lot of cases where flags contain semantic information
-    # -d, -D and --all-repeated renders parallelization infeasible (at least very hard)
+    # -d, -D, --all-repeated and -u renders parallelization infeasible (at least very hard)
+    # with -z, the records are not lines
     # -c makes it harder but feasible:
     #   one needs to cut the prefix of numbers, run the sequential and see whether it is merged
     # TODO: what does --group do?
 
     def generate_info(self) -> None:
         # check for flags/options that make it hard to parallelize
-        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated", "-u", "-z"]):
             if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
                 # we need a special merge
                 aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(cmd_inv_as_str='PLACEHOLDER:uniq_merge_count_uniq', is_implemented=False)
-- 
2.43.0


From 616ddf3fb690324a6c63b4890cdd608eed79c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 56/62] fix: tr -d -s squeezes also across joined lines

---
 .../ParallelizabilityInfoGeneratorTr.py                     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 6903707..65c85b4 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -30,7 +30,11 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
                                       (self.does_last_set_effectively_contain_newline() or
                                        # newlines are translated to elements of the last set
                                        self.does_first_set_effectively_contain_newline())
-        if does_delete_newlines:
+        if does_delete_newlines and self.does_flag_option_list_contain_at_least_one_of(["-s"]):
+            # the second set also needs to be squeezed where results are joined
+            self.append_to_parallelizer_list_cc_seq_adjs()
+            self.append_to_parallelizer_list_rr_seq_adjs()
+        elif does_delete_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
             self.append_to_parallelizer_list_rr_seq_adjm()
-- 
2.43.0


From 7a7357d36e7a22db515a94a137c5e366e0afc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 57/62] fix: tr sets with the null character do not contain
 newlines because of it

---
 .../ParallelizabilityInfoGeneratorTr.py                      | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 65c85b4..25abfa0 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -51,15 +51,14 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         last_operand: Operand = self.cmd_inv.operand_list[-1]
         # is contained if (a) no -c and in set, or (b) -c and not in set
         last_operand_contains_newline: bool = last_operand.contains_new_line()
-        last_operand_contains_null_char: bool = last_operand.contains_null_char()
         if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
             return not last_operand_contains_newline
         else:  # '-c' (if existent) does not refer to the given set
-            return (last_operand_contains_newline or last_operand_contains_null_char)
+            return last_operand_contains_newline
 
     def does_first_set_effectively_contain_newline(self) -> bool:
         first_operand: Operand = self.cmd_inv.operand_list[0]
         if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
             return not first_operand.contains_new_line()
         else:
-            return first_operand.contains_new_line() or first_operand.contains_null_char()
+            return first_operand.contains_new_line()
-- 
2.43.0


From a87ce13a8f79dd7aacf060c05fc519d2fb9c0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 58/62] fix: comm and set_diff with other numbers of operands
 are refused also without assertions

---
 .../annotation_generators/InputOutputInfoGeneratorComm.py      | 3 ++-
 .../annotation_generators/InputOutputInfoGeneratorSetDiff.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
index 6cd80d8..2f89ed5 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
@@ -12,5 +12,6 @@ class InputOutputInfoGeneratorComm(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
         self.set_implicit_use_of_stdout()
-        assert(self.get_operand_list_length() == 2)  # needs two files to compare;
+        if not self.get_operand_list_length() == 2:  # needs two files to compare;
+            raise Exception('comm without exactly two operands')
         self.all_operands_are_streaming_inputs()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
index 4c0f0f0..87374e7 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
@@ -6,5 +6,6 @@ class InputOutputInfoGeneratorSetDiff(InputOutputInfoGeneratorInterface):
     def generate_info(self) -> None:
         self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
-        assert(self.get_operand_list_length() == 1)
+        if not self.get_operand_list_length() == 1:
+            raise Exception('set_diff without exactly one operand')
         self.set_first_operand_as_config_arg_type_filename_or_std_descriptor()
\ No newline at end of file
-- 
2.43.0


From 8b3e17db17ca610737fa431c3cdba82116dedcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 59/62] fix: the command line tool can be run as a module of
 the installed package

---
 pash_annotations/annotation_cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 0513d01..b7d825e 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -4,13 +4,13 @@ import sys
 from typing import Optional
 
 # create parser
-from annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
+from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
     get_parallelizability_info_from_cmd_invocation
 
-from annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
-from annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
-from datatypes.CommandInvocationInitial import CommandInvocationInitial
-from parser.parser import parse
+from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
+from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
+from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
+from pash_annotations.parser.parser import parse
 
 parser = argparse.ArgumentParser()
 
-- 
2.43.0


From 45356a720f2dd3d97c4063895eb32f3f2259d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 60/62] fix: pash_annotations.datatypes.Operand can be imported

---
 pash_annotations/datatypes/Operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/Operand.py b/pash_annotations/datatypes/Operand.py
index 303cd3d..1adc1b2 100644
--- a/pash_annotations/datatypes/Operand.py
+++ b/pash_annotations/datatypes/Operand.py
@@ -1 +1 @@
-from datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType
-- 
2.43.0


From 4ae0f5b1df55108fefb0460203caceed5d9b9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 61/62] fix: provide no parallelizability information if an
 option is left among the operands

---
 .../annotation_generators/Generator_Interface.py  | 14 ++++++++++++++
 .../InputOutputInfoGenerator_Interface.py         | 15 +--------------
 .../ParallelizabilityInfoGenerator_Interface.py   |  3 ++-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/Generator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/Generator_Interface.py
index 5f6cb1e..4ccec00 100644
--- a/pash_annotations/annotation_generation/annotation_generators/Generator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/Generator_Interface.py
@@ -1,6 +1,8 @@
 from typing import List
 from abc import ABC, abstractmethod
 
+from pash_annotations.config.definitions import COMMANDS_WITH_OPTIONS_ANYWHERE, COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS
+
 from pash_annotations.datatypes.BasicDatatypes import FlagOption
 from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
 
@@ -19,6 +21,18 @@ class Generator_Interface(ABC):
 
     ## HELPERS/Library functions: to check conditions
 
+    # An operand that looks like an option is one that is not known, comes after an operand or is "--".
+    # What the operands are used for cannot be told then, so no information is provided (exception caught by caller).
+    def check_that_no_option_is_among_operands(self) -> None:
+        potential_options = self.cmd_inv.operand_list
+        if self.cmd_inv.cmd_name in COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS:
+            potential_options = potential_options[:1]
+        elif self.cmd_inv.cmd_name not in COMMANDS_WITH_OPTIONS_ANYWHERE:
+            return
+        for operand in potential_options:
+            if str(operand.get_name()).startswith("-") and str(operand.get_name()) != "-":
+                raise Exception(f"operand looks like an option: {operand}")
+
     def does_flag_option_list_contain_at_least_one_of(self, list_names: List[str]) -> bool:
         return len(self.get_flag_option_list_filtered_with(list_names)) > 0
 
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index 87aa7a3..1a575a3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -1,7 +1,6 @@
 from typing import List, Tuple, Union, Literal, Dict
 
-from pash_annotations.config.definitions import INDICATORS_FOR_FILENAMES, COMMANDS_WITH_OPTIONS_ANYWHERE, \
-    COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS
+from pash_annotations.config.definitions import INDICATORS_FOR_FILENAMES
 
 from pash_annotations.datatypes.BasicDatatypes import Flag, Option, WhichClassForArg
 from pash_annotations.datatypes.AccessKind import AccessKind, get_access_from_string
@@ -36,18 +35,6 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
                                                     number_of_operands=len(cmd_invocation.operand_list)
                                                   )
 
-    # An operand that looks like an option is one that is not known, comes after an operand or is "--".
-    # What the operands are used for cannot be told then, so no information is provided (exception caught by caller).
-    def check_that_no_option_is_among_operands(self) -> None:
-        potential_options = self.cmd_inv.operand_list
-        if self.cmd_inv.cmd_name in COMMANDS_WITH_OPTIONS_ONLY_BEFORE_OPERANDS:
-            potential_options = potential_options[:1]
-        elif self.cmd_inv.cmd_name not in COMMANDS_WITH_OPTIONS_ANYWHERE:
-            return
-        for operand in potential_options:
-            if str(operand.get_name()).startswith("-") and str(operand.get_name()) != "-":
-                raise Exception(f"operand looks like an option: {operand}")
-
     @abstractmethod
     def generate_info(self) -> None:
         pass
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGenerator_Interface.py
index 6e91a3f..2e144b9 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGenerator_Interface.py
@@ -14,7 +14,8 @@ from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo impo
 class ParallelizabilityInfoGeneratorInterface(Generator_Interface, ABC):
 
     def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
-        self.cmd_inv = cmd_invocation
+        super().__init__(cmd_invocation=cmd_invocation)
+        self.check_that_no_option_is_among_operands()
         self.parallelizability_info: ParallelizabilityInfo = ParallelizabilityInfo()
 
     @abstractmethod
-- 
2.43.0


From cd6e75f9d6acef5e130ce0b40cda2dc27c2afc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 62/62] fix: offer no parallelizers for cut with newline as
 delimiter

---
 .../annotation_generators/ParallelizabilityInfoGeneratorCut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
index 0290e7f..0847b33 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
@@ -8,5 +8,8 @@ class ParallelizabilityInfoGeneratorCut(ParallelizabilityInfoGeneratorInterface)
     # list_of_all_options = ["-b", "-c", "-d", "-f", "--output-delimiter", ]
 
     def generate_info(self) -> None:
+        # with newline as delimiter, the lines are the fields of a single record
+        if any(str(option.get_arg()) == "\n" for option in self.get_flag_option_list_filtered_with(["-d"])):
+            return
         self.append_to_parallelizer_list_cc_seq_conc()
         self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0

