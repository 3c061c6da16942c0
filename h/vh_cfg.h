/* arbitrary values for the program's settings: a harness starts from these and then fixes
 * only those the property is about */
#ifndef VH_CFG_H
#define VH_CFG_H
static void vh_cfg(void)
{
  extern unsigned int all, diehard, generator, gvcount, gscount, help_flag, hist_flag, iterations, ks_test, list, List, ntuple, num_randoms,
    output_file, output_format, overlap, psamples, quiet, rgb, sts, Seed, user, Xtrategy, Xstep, Xoff, binary, table, tflag, tflag_default;
  extern off_t tsamples, filecount;
  extern int fromfile, filenumbits, dtest_num;
  extern double strategy, Xweak, Xfail, x_user, y_user, z_user, multiply_p;
  extern unsigned long int seed;
  extern char filetype;
  all = (unsigned)vin(); diehard = (unsigned)vin(); generator = (unsigned)vin(); gvcount = (unsigned)vin(); gscount = (unsigned)vin();
  help_flag = (unsigned)vin(); hist_flag = (unsigned)vin(); iterations = (unsigned)vin(); ks_test = (unsigned)vin(); list = (unsigned)vin(); List = (unsigned)vin();
  ntuple = (unsigned)vin(); num_randoms = (unsigned)vin(); output_file = (unsigned)vin(); output_format = (unsigned)vin(); overlap = (unsigned)vin();
  psamples = (unsigned)vin(); quiet = (unsigned)vin(); rgb = (unsigned)vin(); sts = (unsigned)vin(); Seed = (unsigned)vin(); user = (unsigned)vin();
  Xtrategy = (unsigned)vin(); Xstep = (unsigned)vin(); Xoff = (unsigned)vin(); binary = (unsigned)vin(); table = (unsigned)vin();
  tflag = (unsigned)vin(); tflag_default = (unsigned)vin(); tsamples = (off_t)vin(); filecount = (off_t)vin();
  fromfile = (int)vin(); filenumbits = (int)vin(); dtest_num = (int)vin();
  strategy = vin_double(); Xweak = vin_double(); Xfail = vin_double(); x_user = vin_double(); y_user = vin_double(); z_user = vin_double(); multiply_p = vin_double();
  seed = (unsigned long)vin(); filetype = (char)vin();
}
#endif
