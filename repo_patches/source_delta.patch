From 9c11d298512c388e3a0fbbfe5c06303076f31e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:47 +0000
Subject: [PATCH 01/15] fix: get_bit() masked with INT_MAX instead of the top
 bit

(int)pow(2,31) does not fit an int; optimising compilers fold it to
INT_MAX, so get_bit() returned the OR of up to 31 bits instead of bit n.
---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..d65a97c 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -291,7 +291,7 @@ int get_bit(unsigned int *rand_uint, unsigned int n)
   * the first significant/valid bit in the unsigned int.
   */
  offset = (8*sizeof(unsigned int) - rmax_bits) + n%rmax_bits;
- mask = (int)pow(2,8*sizeof(unsigned int) - 1);
+ mask = 1u << (8*sizeof(unsigned int) - 1);
  mask = mask>>offset;
  if(mask & rand_uint[index]){
    return(1);
-- 
2.43.0


From 2044b0d87301dd24b812dc663f6e3ad92ae0e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:47 +0000
Subject: [PATCH 02/15] fix: get_uint_rand() added new bits onto an already
 returned word

When an output of the generator exactly completed a word, the word was
returned but left in the buffer, and the next word was summed onto it.
Every generator with fewer than 32 bits per output was affected.
---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index d65a97c..dc90c00 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From 1644c3175da7c99a4c1a5ba51759fb88dbf2ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 03/15] fix: file_input truncated floating point values to 0
 before scaling

The cast bound to f alone, so every value in [0,1) of a text file of type
e, E, f, F or g was delivered as 0.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..32f973e 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From 1d6411dad7b03388021ebba9ea7115f4c7cc3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 04/15] fix: file_input delivered an uninitialised value for a
 blank data line

sscanf() returns EOF, not 0, on a line with nothing but white space.
---
 libdieharder/rng_file_input.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 32f973e..39467fd 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,7 +119,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -129,7 +129,7 @@ static unsigned long int file_input_get (void *vstate)
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +138,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-- 
2.43.0


From 2d8ea94eb356c77e7291595ed332458cafe6c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 05/15] fix: file_input_raw did not determine the file length
 for a second generator

Only the first generator of the process looked at the file; any later one
(as created by the XOR supergenerator, which is seeded twice) kept length 0,
never rewound the file and ended the program at its end.
---
 libdieharder/rng_file_input_raw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input_raw.c b/libdieharder/rng_file_input_raw.c
index 2e0e87d..01c60b3 100644
--- a/libdieharder/rng_file_input_raw.c
+++ b/libdieharder/rng_file_input_raw.c
@@ -115,7 +115,7 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
   * Get and set the file length, check to make sure the file exists,
   * whatever...
   */
- if(first){
+ if(first || state->fp == NULL){
    if(verbose){
      fprintf(stdout,"# file_input_raw(): entering file_input_raw_set 1st call.\n");
    }
-- 
2.43.0


From 80b218cb41f261e66fe553439443b0a7f085b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 06/15] fix: XOR generator drew its first component twice per
 output

Each output contained two consecutive outputs of the first listed generator
instead of one, contrary to the documented combination.
---
 libdieharder/rng_XOR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..a44b4b4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -40,7 +40,7 @@ XOR_get (void *vstate)
   * to have to decorate this code with error checks...
   */
  state->XOR_rnd = gsl_rng_get(state->grngs[1]);
- for(i=1;i<gvcount;i++){
+ for(i=2;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
  return state->XOR_rnd;
-- 
2.43.0


From 6c6e3a0ec172aa1e9d0e1943439fd66c77d8f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 07/15] fix: file_input_set_rtot() overwrote the generator
 handle

It wrote into the gsl_rng structure instead of its state and ignored the value.
---
 libdieharder/rng_file_input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 39467fd..b1ca3e8 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -70,8 +70,8 @@ file_input_get_rtot(gsl_rng *rng)
 void
 file_input_set_rtot(gsl_rng *rng,uint value)
 {
-  file_input_state_t *state = (file_input_state_t *) rng;
-  state->rtot = 0;
+  file_input_state_t *state = (file_input_state_t *) rng->state;
+  state->rtot = value;
 }
 
 static unsigned long int file_input_get (void *vstate)
-- 
2.43.0


From 63cb9074738e7335d069e80b8a0e2bef12924d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 08/15] fix: superkiss returned sums above its declared maximum

The three 32-bit components were added as unsigned long, so outputs of up to
3*(2^32-1) left the declared range of 32 bits.
---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..2282779 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int) (( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 776645e648a9f12a3825832d029577f55725e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 09/15] fix: /dev/random, /dev/urandom and /dev/arandom
 returned 64-bit values

The declared maximum is UINT_MAX, but where long has 64 bits a whole long was
read and returned, and the floating point output exceeded 1.
---
 libdieharder/rng_dev_arandom.c | 2 +-
 libdieharder/rng_dev_random.c  | 2 +-
 libdieharder/rng_dev_urandom.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..a620f6a 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..14b0456 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..dbf2f02 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
-- 
2.43.0


From 53ab25e279265a26b7a661f0d0ec05d5c458b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 10/15] fix: ca generator ignored its seed argument and changed
 the global seed

ca_set() read the program's global seed instead of the seed it was given, and
incremented it, so reseeding with the same seed gave a different sequence and
the seed reported with the results was not the one that had been set.
---
 libdieharder/rng_ca.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..f0c3791 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -133,14 +133,14 @@ ca_set (void *vstate, unsigned long int s) {
     init_config[i] = 0;
 
   /* set initial cell states using seed */
-  init_config[CA_WIDTH - 1] = (unsigned char)(seed);
-  init_config[CA_WIDTH - 2] = (unsigned char)(seed << 8);
-  init_config[CA_WIDTH - 3] = (unsigned char)(seed << 16);
-  init_config[CA_WIDTH - 4] = (unsigned char)(seed << 24);
-  if (seed != 0xFFFFFFFF)
-     seed++;
+  init_config[CA_WIDTH - 1] = (unsigned char)(s);
+  init_config[CA_WIDTH - 2] = (unsigned char)(s << 8);
+  init_config[CA_WIDTH - 3] = (unsigned char)(s << 16);
+  init_config[CA_WIDTH - 4] = (unsigned char)(s << 24);
+  if (s != 0xFFFFFFFF)
+     s++;
   for (i = 0; i < CA_WIDTH - 4; i++)
-    init_config[i] = (unsigned char) ( seed >> (i % 32) );
+    init_config[i] = (unsigned char) ( s >> (i % 32) );
 
   /* define addresses of first_cell and last_cell */
   first_cell = init_config;
-- 
2.43.0


From aa2a406373c573da1b3d8d66ca360458b279f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 11/15] fix: uvag seeding depended on bits left over in the
 shared bit buffers

The key is drawn through get_rand_bits(), whose buffers kept bits of earlier
seedings and other generators, so the same seed did not give the same sequence;
and bits of the seed generator were left behind for the tests.
---
 libdieharder/rng_uvag.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..ab611e8 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -156,6 +156,11 @@ static void uvag_set (void *vstate, unsigned long int s) {
    rmax_mask++;
    rmax_bits++;
  }
+ /*
+  * The bit buffers must hold no bits of any other generator (or of an
+  * earlier seeding) before, and none of seed_rng's after this.
+  */
+ reset_bit_buffers();
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
    get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
@@ -166,6 +171,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
    }
    /* printf("%02x",key[i]); */
  }
+ reset_bit_buffers();
  /* printf("\n"); */
 
  kp = key;
-- 
2.43.0


From eb5da2199b7316ab30cfefe98357e9f050c9527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 12/15] fix: output_rnds never finished for 2^32 or more values

---
 dieharder/output_rnds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dieharder/output_rnds.c b/dieharder/output_rnds.c
index d30573c..36fa48a 100644
--- a/dieharder/output_rnds.c
+++ b/dieharder/output_rnds.c
@@ -18,7 +18,8 @@
 void output_rnds()
 {
 
- unsigned int i,j;
+ unsigned long int i;
+ unsigned int j;
  double d;
  FILE *fp;
 
-- 
2.43.0


From c73b9c7b6545ef82308e177e1055e5b2d878ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:59 +0000
Subject: [PATCH 13/15] fix: binary_rank eliminated the wrong words for more
 than 32 columns

---
 libdieharder/rank.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..72902ac 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -160,14 +160,14 @@ int binary_rank(uint **mtx,int mrows,int ncols)
           * we use exclusive or to eliminate the
           * rest of the column.
           */
-         n = uint_col_max - col_ind;
+         n = uint_col_max;
          if(verbose == D_BRANK || verbose == D_ALL){
            printf("eliminating against row %2d = ",i);
            dumpbits(&mtx[i][col_ind],32);
            printf("eliminating row %2d, before = ",k);
            dumpbits(&mtx[k][col_ind],32);
          }
-         while (n >= 0){
+         while (n >= col_ind){
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-- 
2.43.0


From 15c2080e7f77619abf5f858e47715d1677723152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:39 +0000
Subject: [PATCH 14/15] fix: birthdays tests read past the end of the interval
 list

---
 libdieharder/dab_birthdays1.c    | 2 +-
 libdieharder/diehard_birthdays.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..aa2247d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From d3ba54ceea93f3b18faeea8677110e4cac5bec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:39 +0000
Subject: [PATCH 15/15] fix: dab_birthdays1 skipped a repeated interval that
 follows another one

---
 libdieharder/dab_birthdays1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index aa2247d..fccb072 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -185,7 +185,7 @@ int dab_birthdays1(Test **test, int irun)
      /*
       * Skip all the rest that were identical.
       */
-     if(mnext != m+1) m = mnext;
+     if(mnext != m+1) m = mnext-1;
    }
 
    /*
-- 
2.43.0

