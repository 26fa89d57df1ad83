From 974dd98df04b868d8d616de3b52371bef17da874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 01/31] fix: apply the relocation's own addend to GOT-relative
 x86-64 relocations

---
 lib/tinycc/x86_64-link.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/x86_64-link.c b/lib/tinycc/x86_64-link.c
index 42f753c..090490a 100644
--- a/lib/tinycc/x86_64-link.c
+++ b/lib/tinycc/x86_64-link.c
@@ -261,7 +261,7 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
 	    break;
 
         case R_X86_64_PLTOFF64:
-            add64le(ptr, val - s1->got->sh_addr + rel->r_addend);
+            add64le(ptr, val - s1->got->sh_addr);
             break;
 
         case R_X86_64_PC64:
@@ -288,7 +288,7 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
         case R_X86_64_GOTPCRELX:
         case R_X86_64_REX_GOTPCRELX:
             add32le(ptr, s1->got->sh_addr - addr +
-                         get_sym_attr(s1, sym_index, 0)->got_offset - 4);
+                         get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOTPC32:
             add32le(ptr, s1->got->sh_addr - addr + rel->r_addend);
@@ -301,11 +301,11 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
             break;
         case R_X86_64_GOT32:
             /* we load the got offset */
-            add32le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset);
+            add32le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOT64:
             /* we load the got offset */
-            add64le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset);
+            add64le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOTOFF64:
             add64le(ptr, val - s1->got->sh_addr);
-- 
2.43.0


From 18b3baceb7430734f1d454c6c52c343812267adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 02/31] fix: decode tar octal fields inside the field and past
 leading blanks

---
 src/muntar.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..ddc5db3 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -71,21 +71,16 @@ static uint64_t decodeTarOctal(
 	const char* data,
 	size_t size )
 {
-    uint8_t* currentPtr = (uint8_t*) data + size;
+    const uint8_t* currentPtr = (const uint8_t*) data;
+    const uint8_t* endPtr = currentPtr + size;
     uint64_t sum = 0;
-    uint64_t currentMultiplier = 1;
 
-	/* find then last NUL or space */
-    uint8_t* checkPtr = currentPtr;
-    for (; checkPtr >= (uint8_t*) data; checkPtr--)
+	/* skip the blanks some writers pad with */
+    while (currentPtr < endPtr && *currentPtr == ' ') currentPtr++;
+	/* decode the octal number, up to NUL, space or the end of the field */
+    for (; currentPtr < endPtr && *currentPtr >= '0' && *currentPtr <= '7'; currentPtr++)
 	{
-        if (*checkPtr == 0 || *checkPtr == ' ') currentPtr = checkPtr - 1;
-    }
-	/* decode the octal number */
-    for (; currentPtr >= (uint8_t*) data; currentPtr--)
-	{
-        sum += (uint64_t) ((*currentPtr) - 48) * currentMultiplier;
-        currentMultiplier *= 8;
+        sum = sum * 8 + (uint64_t) (*currentPtr - '0');
     }
     return sum;
 }
-- 
2.43.0


From 619109eff1c90cb3fe397103a6f6dac2388cbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 03/31] fix: bound tar member sizes by the archive they are in

---
 src/muntar.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index ddc5db3..5601d82 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -215,6 +215,8 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
+			if(header->size > tar.max - tar.iterator.cursor)
+				return(MTAR_EREADFAIL); // content cut short
 			FILE *fp = fopen(tpath,"wb");
 			if(!fp) {
 				fprintf(stderr,
@@ -308,6 +310,11 @@ int mtar_next(mtar_t *tar)
 
 	if (tar->iterator.offset == UINT64_MAX) return MTAR_ENULLRECORD;
 
+	if (tar->iterator.header.size > tar->max - tar->iterator.offset - 512) {
+		/* content is cut short by the end of the archive */
+		err = MTAR_ESEEKFAIL;
+		goto ESCAPE;
+	}
 	position = tar->iterator.offset + 512 + tar->iterator.header.size;
 	position = (size_t) ( (uint64_t)(position + 511) & (uint64_t) (~0x01FF) );
 	err = mtar_seek(tar, position);
-- 
2.43.0


From 5518c3f5811df09ff7c3726eff6295d0cac36e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 04/31] fix: report every failure met while unpacking a tar
 archive

---
 src/muntar.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 5601d82..af1976f 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -154,10 +154,11 @@ static int mtar_rewind(mtar_t *tar) {
 
 #if defined(_WIN32) || defined(WINDOWS)
 #include <windows.h>
-#define makedir(path) CreateDirectory(path, NULL)
+#define makedir(path) ((CreateDirectory(path, NULL) || \
+	GetLastError()==ERROR_ALREADY_EXISTS) ? 0 : -1)
 #else
 #include <sys/stat.h>
-#define makedir(path) mkdir(path,0755)
+#define makedir(path) ((mkdir(path,0755)==0 || errno==EEXIST) ? 0 : -1)
 #endif
 
 // used by extract_assets(char *tmpdir)
@@ -174,7 +175,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 	res = mtar_load(&tar, path, buf, len);
 	if(res != MTAR_ESUCCESS) return(MTAR_EOPENFAIL);
 	// first create extract dir if doesn't exist
-	makedir(tpath);
+	if(makedir(tpath)) return(MTAR_EWRITEFAIL);
 	while(!mtar_eof(&tar)) {
 		// then create every other subdir
 		p = tpath+pathlen;
@@ -192,12 +193,14 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
-			makedir(tpath);
+			if(makedir(tpath)) return(MTAR_EWRITEFAIL);
 			break;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
 	}
-	mtar_rewind(&tar);
+	if(res != MTAR_ENULLRECORD) return(res); // no end of archive
+	res = mtar_rewind(&tar);
+	if(res != MTAR_ESUCCESS) return(res);
 	while(!mtar_eof(&tar)) {
 		// and at last create the files
 		p = tpath+pathlen;
@@ -225,13 +228,16 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			const size_t written =
+				fwrite(&tar.buffer[tar.iterator.cursor],
+				       1,header->size,fp);
+			if(fclose(fp)!=0 || written!=header->size)
+				return(MTAR_EWRITEFAIL);
 			break;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
 	}
+	if(res != MTAR_ENULLRECORD) return(res); // no end of archive
 	return(MTAR_ESUCCESS);
 }
 
@@ -253,7 +259,9 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 	}
 	int res;
 	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
+	if(destlen/DECOMPRESSED_SIZE_RATIO != len) return(MTAR_EFAILURE);
 	uint8_t *dest = malloc(destlen);
+	if(!dest) return(MTAR_EFAILURE);
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
-- 
2.43.0


From d66b9337e5c777cb8158588db112f2635e1b134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 05/31] fix: refuse tar members that climb out of the target
 directory

---
 src/muntar.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index af1976f..bda49ce 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -161,6 +161,20 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) ((mkdir(path,0755)==0 || errno==EEXIST) ? 0 : -1)
 #endif
 
+// true if a segment of the member name is the parent directory
+static int has_parent_segment(const char *name) {
+	size_t i = 0;
+	size_t start = 0;
+	for(;; i++) {
+		if(name[i]=='/' || name[i]=='\\' || name[i]==0) {
+			if(i-start==2 && name[start]=='.' && name[start+1]=='.')
+				return(1);
+			start = i+1;
+		}
+		if(name[i]==0) return(0);
+	}
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -183,6 +197,9 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TDIR:
+			if(has_parent_segment(header->path) ||
+			   has_parent_segment(header->name))
+				return(MTAR_EFAILURE);
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
@@ -208,6 +225,9 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TREG:
+			if(has_parent_segment(header->path) ||
+			   has_parent_segment(header->name))
+				return(MTAR_EFAILURE);
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
-- 
2.43.0


From d7e7ac9bfdd4152fb67d72ae38cf7ecbfcee52be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 06/31] fix: pass the cjit context to cjit_set_tcc_options for
 -C

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index da30183..3b8b500 100644
--- a/src/main.c
+++ b/src/main.c
@@ -208,7 +208,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From aa6d56725e1fb59e9768d2598cc859567182f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 07/31] fix: keep application arguments and sources that follow
 ignored flags

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3b8b500..eec5648 100644
--- a/src/main.c
+++ b/src/main.c
@@ -105,6 +105,7 @@ const char *ignored_args[] = {
 	"-shared",
 	"-O",
 	"-O:",
+	"-g",
 	"-f:",
 	"-W:",
 	"-M:",
@@ -414,6 +415,7 @@ char** remove_args(int* argc, char** argv,
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
+        if (strcmp(argv[i], "--") == 0) break; // application arguments follow
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From d71b029f282bc31182d4bc972902094cdc85434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 08/31] fix: load every source given before the -- separator

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index eec5648..96b6f9f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -272,7 +272,7 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  arg_separator = opt.ind + opt.n_args; break;
 	  }
   }
   if(!CJIT->quiet)
@@ -301,7 +301,7 @@ int main(int argc, char **argv) {
   int left_args = arg_separator? arg_separator: argc;
 
   char *stdin_code = NULL;
-  if(opt.ind >= argc) {
+  if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
 		  cjit_status(CJIT);
-- 
2.43.0


From daeaba975b841b111d615a0acc8b56f6cb923db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 09/31] fix: report failures of --xtgz in the exit status

---
 src/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 96b6f9f..afce672 100644
--- a/src/main.c
+++ b/src/main.c
@@ -266,8 +266,7 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  exit(muntargz_to_path(".",targz,len)==0 ? 0 : 1);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
-- 
2.43.0


From 82bb26f0b2eb2f7b2958ead39ce50f838930be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 10/31] fix: fail when a source or library cannot be compiled,
 linked or written

---
 src/cjit.c | 22 +++++++++++++---------
 src/main.c |  8 ++++----
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..c2a38f7 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -34,7 +34,7 @@
 #include <sys/stat.h> // fstat(2)
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
@@ -454,10 +454,10 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
 	debug("+S %s",path);
-	return true;
+	return((res<0)?false:true);
 }
 
 bool cjit_add_file(CJITState *cjit, const char *path) {
@@ -500,12 +500,16 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
+	int res;
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
+		res = tcc_output_file(tcc(cjit),
 				cjit->output_filename);
 	} else {
 		char *ext;
@@ -520,10 +524,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
@@ -541,7 +545,7 @@ int cjit_link(CJITState *cjit) {
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
-			tcc_add_file(tcc(cjit), f);
+			if(tcc_add_file(tcc(cjit), f)<0) return 1;
 		}
 	}
 	debug(" -o %s",cjit->output_filename);
@@ -564,7 +568,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
 			debug(" +file: %s",f);
-			tcc_add_file(tcc(cjit), f);
+			if(tcc_add_file(tcc(cjit), f)<0) return 1;
 		}
 	}
 	int res = 1;
diff --git a/src/main.c b/src/main.c
index afce672..3b8783a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -135,8 +135,7 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1]) || cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -368,7 +367,8 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path))
+				  goto endgame;
 		  }
 	  }
   }
@@ -378,7 +378,7 @@ int main(int argc, char **argv) {
   if(CJIT->print_status) cjit_status(CJIT);
   if(CJIT->output_filename) {
 	  _err("Create executable: %s", CJIT->output_filename);
-	  if(cjit_link(CJIT)<0) {
+	  if(cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
-- 
2.43.0


From d298ebfb7b24702c039b322bf441750942b114af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 11/31] fix: terminate the object file name made from a source
 path

---
 src/cjit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index c2a38f7..d62e26f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -519,7 +519,8 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		size_t len;
 		cwk_path_get_basename((char*)path, &basename, &len);
 		tmp = malloc(len+2);
-		strncpy(tmp,basename,len+1);
+		strncpy(tmp,basename,len);
+		tmp[len] = 0x0;
 		cwk_path_get_extension(tmp,(const char**)&ext,&extlen);
 		strcpy(ext,".o");
 		if(!cjit->quiet)
-- 
2.43.0


From 2ea15cf0d8a8a9e58e84558dffb05d6c7415698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 12/31] fix: keep long diagnostics inside the message buffer

---
 src/cjit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index d62e26f..cdd244e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -705,6 +705,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0; // format error
+  if(len > MAX_STRING-1) len = MAX_STRING-1; // message was cut
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -719,6 +721,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0; // format error
+  if(len > MAX_STRING-1) len = MAX_STRING-1; // message was cut
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-- 
2.43.0


From 9fe33e4d7da1375759c5054e6e5db630bf5274fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 13/31] fix: handle failures of fork and waitpid

---
 src/cjit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index cdd244e..a86795b 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -611,6 +611,9 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if (pid == 0) {
 		res = _ep(argc, argv);
 		exit(res);
+	} else if (pid < 0) {
+		fail("fork");
+		return -1;
 	} else {
 		if(cjit->write_pid) {
 			// pid_t pid = getpid();
@@ -627,7 +630,8 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		int ret;
 		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
 		if (ret != pid){
-			_err("Wait error in source: %s",cjit->entry);
+			_err("Wait error in source: %s",cjit->entry?cjit->entry:"main");
+			return -1;
 		}
 		if (WIFEXITED(status)) {
 			res = WEXITSTATUS(status);
-- 
2.43.0


From 03d43fdf8a36fdf3389444a75e756a0bc619381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 14/31] fix: load source text completely or report the error

---
 src/cjit.c |  5 +++--
 src/file.c | 27 +++++++++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index a86795b..90bcf3e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -436,8 +436,9 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+	if(length != fread(contents+spath_len, 1, length, file)) {
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
diff --git a/src/file.c b/src/file.c
index 7b15a64..97cdf4e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -29,6 +29,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <inttypes.h>
+#include <limits.h>
 
 #include <ftw.h> // _GNU_SOURCE
 
@@ -46,8 +47,9 @@ static long file_size(const char *filename) {
 }
 
 char* file_load(const char *filename, unsigned int *len) {
-    size_t length = file_size(filename);
-    if (length < 1) {
+    const long filelen = file_size(filename);
+    const size_t length = (size_t)filelen;
+    if (filelen < 1 || length > UINT_MAX - 1) {
         return NULL;
     }
 
@@ -67,7 +69,9 @@ char* file_load(const char *filename, unsigned int *len) {
     // _err("Loading source file %s",filename);
 
     if(fread(contents, 1, length, file)<length) {
-		fail(file);
+		fail(filename);
+		free(contents);
+		fclose(file);
 		return NULL;
 	}
 
@@ -84,7 +88,9 @@ char *load_stdin() {
 #else
 	char *code = NULL;
 	char *line = NULL;
+	char *tmp;
 	size_t len = 0;
+	size_t used = 0;
 	ssize_t rd;
 	fflush(stdout);
 	fflush(stderr);
@@ -92,15 +98,24 @@ char *load_stdin() {
 		rd = getline(&line, &len, stdin);
 		if(rd == -1) { // ctrl+d
 			free(line);
+			if(ferror(stdin)) {
+				fail("stdin");
+				free(code);
+				return NULL;
+			}
 			break;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
+		tmp = realloc(code, used + rd + 1);
+		if (!tmp) {
 			fail("malloc error");
 			free(line);
+			free(code);
 			return NULL;
 		}
-		strcat(code, line);
+		code = tmp;
+		memcpy(code + used, line, rd);
+		used += rd;
+		code[used] = 0x0;
 		free(line);
 		line = NULL;
 	}
-- 
2.43.0


From 7eaa5b9ddf3b0e15b5651057e5168e78d31f493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 15/31] fix: report failures of --xass in the exit status

---
 src/main.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3b8783a..3c52cb9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -247,11 +247,11 @@ int main(int argc, char **argv) {
 #endif
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
-		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
+		  if(opt.arg)
+			  _err("Extracting runtime assets to: %s",opt.arg);
+		  if(!extract_assets(CJIT,opt.arg)) {
+			  cjit_free(CJIT);
+			  exit(1);
 		  }
 		  _out(CJIT->tmpdir);
 		  cjit_free(CJIT);
-- 
2.43.0


From 877a07a540ccf325fc2d65bf8adabbbbb086eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 16/31] fix: copy only the used slots when the array is resized

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..15f4bd1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
-- 
2.43.0


From a88a15a231ffa6c5bc5964305eafc175a3d923e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 17/31] fix: refuse to add to a full array of fixed size

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 15f4bd1..478dce9 100644
--- a/src/array.c
+++ b/src/array.c
@@ -197,7 +197,7 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
-        return XArray_Realloc(pArr);
+        return XArray_Realloc(pArr) > pArr->nUsed ? 1 : 0;
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From fa9461fce4c01b1d2c42f7d1de533b1421c4d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 18/31] fix: take a deleted element out of the array

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 478dce9..819d2d4 100644
--- a/src/array.c
+++ b/src/array.c
@@ -307,7 +307,7 @@ xarray_data_t* XArray_Remove(xarray_t *pArr, size_t nIndex)
 
 void XArray_Delete(xarray_t *pArr, size_t nIndex)
 {
-    xarray_data_t *pData = XArray_Get(pArr, nIndex);
+    xarray_data_t *pData = XArray_Remove(pArr, nIndex);
     if (pData != NULL) XArray_ClearData(pArr, pData);
 }
 
-- 
2.43.0


From 46ad0c76c48b4133a982efe6b319d4725c91efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 19/31] fix: keep the array unchanged when inserting past its
 end

---
 src/array.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/array.c b/src/array.c
index 819d2d4..63e4107 100644
--- a/src/array.c
+++ b/src/array.c
@@ -338,10 +338,9 @@ xarray_data_t* XArray_SetData(xarray_t *pArr, size_t nIndex, void *pData, size_t
 
 xarray_data_t* XArray_Insert(xarray_t *pArr, size_t nIndex, xarray_data_t *pData)
 {
-    if (!XArray_CheckSpace(pArr)) return NULL;
+    if (!XArray_CheckSpace(pArr) || nIndex >= pArr->nUsed) return NULL;
 
     xarray_data_t *pOldData = XArray_Set(pArr, nIndex, pData);
-    if (pOldData == NULL) return NULL;
 
     size_t i, nNextIndex = nIndex + 1;
 
@@ -363,7 +362,9 @@ xarray_data_t* XArray_InsertData(xarray_t *pArr, size_t nIndex, void *pData, siz
         return NULL;
     }
 
-    return XArray_Insert(pArr, nIndex, pNewData);
+    xarray_data_t *pOldData = XArray_Insert(pArr, nIndex, pNewData);
+    if (pOldData == NULL) XArray_ClearData(pArr, pNewData);
+    return pOldData;
 }
 
 void XArray_Swap(xarray_t *pArr, size_t nIndex1, size_t nIndex2)
-- 
2.43.0


From f2c72485a0b74a2a1443c13ee6816c917ce91bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 20/31] fix: an array whose storage could not be allocated has
 no slots

---
 src/array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 63e4107..9c61a80 100644
--- a/src/array.c
+++ b/src/array.c
@@ -78,7 +78,11 @@ void* XArray_Init(xarray_t *pArr, size_t nSize, uint8_t nFixed)
     if (nSize)
     {
         pArr->pData = (xarray_data_t**)malloc(nSize * sizeof(xarray_data_t*));
-        if (pArr->pData == NULL) return NULL;
+        if (pArr->pData == NULL)
+        {
+            pArr->nSize = 0;
+            return NULL;
+        }
     }
 
     size_t i;
-- 
2.43.0


From a9de52f34c1a98c1ae5f7c8af5ecfe529f892adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 21/31] fix: wait for the end of the program, not for its first
 stop

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 90bcf3e..35fe0a9 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -629,7 +629,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		}
 		int status;
 		int ret;
-		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
+		ret = waitpid(pid, &status, 0);
 		if (ret != pid){
 			_err("Wait error in source: %s",cjit->entry?cjit->entry:"main");
 			return -1;
-- 
2.43.0


From 59ff222c6268d286b55056c23aff9d11acf8ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 22/31] fix: report a pid file that could not be written

---
 src/cjit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 35fe0a9..8ff9a2f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -624,8 +624,12 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 				_err("Cannot create pid file");
 				return -1;
 			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
+			int written = fprintf(fd,"%d\n",pid);
+			if(fclose(fd)!=0 || written<0) {
+				fail(cjit->write_pid);
+				_err("Cannot write pid file");
+				return -1;
+			}
 		}
 		int status;
 		int ret;
-- 
2.43.0


From 4b4b1603bc279a777215d560c44e5130280e8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 23/31] fix: do not use a path as format string

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3c52cb9..702c111 100644
--- a/src/main.c
+++ b/src/main.c
@@ -253,7 +253,7 @@ int main(int argc, char **argv) {
 			  cjit_free(CJIT);
 			  exit(1);
 		  }
-		  _out(CJIT->tmpdir);
+		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
 		  exit(0);
 #endif
-- 
2.43.0


From ab87e25c2afd3420198563601a0e04fb970c002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 24/31] fix: a file that could not be written completely is a
 failure

---
 src/file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 97cdf4e..37437e2 100644
--- a/src/file.c
+++ b/src/file.c
@@ -176,8 +176,7 @@ bool write_to_file(const char *path, const char *filename, const char *buf, unsi
 		return false;
 	}
 	written = fwrite(buf,1,len,fd);
-	fclose(fd);
-	if(written != len) {
+	if(fclose(fd) != 0 || written != len) {
 		fail(fullpath);
 		return false;
 	}
-- 
2.43.0


From 1736c4edfa454ef6ff0d3cf38d8a6f373be712b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 25/31] fix: an output file that could not be written
 completely is an error

---
 lib/tinycc/tccelf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..c00765f 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2684,7 +2684,8 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         ret = tcc_output_elf(s1, f, phnum, phdr, file_offset, sec_order);
     else
         ret = tcc_output_binary(s1, f, sec_order);
-    fclose(f);
+    if ((ferror(f) | fclose(f)) && ret == 0)
+        ret = tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
 
     return ret;
 }
-- 
2.43.0


From eb5229b526e04a98b1f3a741a1d1c5049f169db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 26/31] fix: step over an ambiguous long option

---
 src/ketopt.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ketopt.h b/src/ketopt.h
index 2053d09..9255d61 100644
--- a/src/ketopt.h
+++ b/src/ketopt.h
@@ -83,8 +83,7 @@ static int ketopt(ketopt_t *s, int argc, char *argv[], int permute, const char *
 					if (longopts[k].name[j - 2] == 0) ++n_exact, o_exact = &longopts[k];
 					else ++n_partial, o_partial = &longopts[k];
 				}
-			if (n_exact > 1 || (n_exact == 0 && n_partial > 1)) return '?';
-			o = n_exact == 1? o_exact : n_partial == 1? o_partial : 0;
+			o = n_exact == 1? o_exact : n_exact == 0 && n_partial == 1? o_partial : 0; /* unknown if ambiguous */
 			if (o) {
 				s->opt = opt = o->val, s->longidx = o - longopts;
 				if (   argv[s->i][j] == '=') s->arg = &argv[s->i][j + 1];
-- 
2.43.0


From 6ca1adf04bd00a9cee70f5fb1195ecf155b5c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 27/31] fix: -- is never the value of an ignored option

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 702c111..5f5c6a9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -438,8 +438,11 @@ char** remove_args(int* argc, char** argv,
                     // OR if it's in the form "option value" (next argument)
                     else if (i + 1 < *argc && arg[pattern_len - 1] == '\0') {
                         keep[i] = false;    // Remove the option
-                        keep[i + 1] = false; // Remove the value
-                        new_argc -= 2;
+                        new_argc--;
+                        if (strcmp(argv[i + 1], "--") != 0) {
+                            keep[i + 1] = false; // Remove the value
+                            new_argc--;
+                        }
                         break;
                     }
                 }
-- 
2.43.0


From f5f20fec064c85c4131aeb945f24281f8b2bf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 28/31] fix: endless recursion when stderr cannot be written

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 8ff9a2f..1d97002 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -735,5 +735,5 @@ void _err(const char *fmt, ...) {
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-	fail("_err()");
+	return; // stderr is where errors are reported
 }
-- 
2.43.0


From a603134b0ae16d69ad9955e2c0254ffd959a079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 29/31] fix: report lack of memory when adding or compiling a
 file

---
 src/cjit.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 1d97002..ba74987 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -449,6 +449,11 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		cwk_path_get_dirname(path,&dirname);
 		if(dirname) {
 			char *tmp = malloc(dirname+1);
+			if (!tmp) {
+				fail(path);
+				free(contents);
+				return false;
+			}
 			strncpy(tmp,path,dirname);
 			tmp[dirname] = 0x0;
 			tcc_add_include_path(tcc(cjit),tmp);
@@ -520,6 +525,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		size_t len;
 		cwk_path_get_basename((char*)path, &basename, &len);
 		tmp = malloc(len+2);
+		if (!tmp) {
+			fail(path);
+			return false;
+		}
 		strncpy(tmp,basename,len);
 		tmp[len] = 0x0;
 		cwk_path_get_extension(tmp,(const char**)&ext,&extlen);
-- 
2.43.0


From 0cdf860a748eacfa5e8e4a0e14cc66654aa6b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 30/31] fix: stop when there is no memory for the argument list

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5f5c6a9..8318c93 100644
--- a/src/main.c
+++ b/src/main.c
@@ -148,6 +148,11 @@ int main(int argc, char **argv) {
   // clean up argv from ignored args and update argc
   int ignored_count = sizeof(ignored_args) / sizeof(ignored_args[0]);
   char** clean_argv = remove_args(&argc, argv, ignored_args, ignored_count);
+  if(!clean_argv) {
+	  _err("Out of memory");
+	  cjit_free(CJIT);
+	  exit(1);
+  }
 
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
-- 
2.43.0


From d3864e88792dbf4e6c2edc190dd1529f0eb2b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 31/31] fix: -e was taken for --verb

---
 src/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8318c93..42af01b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -157,8 +157,8 @@ int main(int argc, char **argv) {
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
-	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "help", ko_no_argument, 300 },
+	  { "verb", ko_no_argument, 301 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -176,11 +176,11 @@ int main(int argc, char **argv) {
 			  CJIT->quiet = true;
 	  } else if (c == 'v') {
 		  CJIT->print_status = true;
-	  } else if (c=='h' || c==100) { // help
+	  } else if (c=='h' || c==300) { // help
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==301) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0

