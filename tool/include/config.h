/* Configuration used by the analyser: same switches as the real build
   (--enable-factorization --enable-plugin --enable-python). */
#define ENABLE_FACTORIZATION 1
#define ENABLE_PLUGIN 1
#define ENABLE_PYTHON 1
#define HAVE_BOOST /**/
#define HAVE_BOOST_SERIALIZATION /**/
#define HAVE_CXX17 1
#define HAVE_GMP_H 1
#define HAVE_LIBDL 1
#define HAVE_LIBGMP 1
#define HAVE_LIBGMPXX 1
#define HAVE_OMP_H 1
#define HAVE_PYBIND11_EVAL_H 1
#define PACKAGE "hnco"
#define PACKAGE_NAME "hnco"
#define PACKAGE_STRING "hnco 0.26"
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
