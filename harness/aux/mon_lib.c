// Built several times with different MON_ID/MON_NAME: a library to load.
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
__attribute__((visibility("default"))) int mon_id(void) {return MON_ID;}
__attribute__((visibility("default"))) int mon_data = 1000 + MON_ID;
__attribute__((visibility("default"))) int CAT(mon_only_in_, MON_NAME)(void) {return MON_ID * 7;}
__attribute__((visibility("hidden"))) int mon_hidden(void) {return 1;}
static int mon_static(void) {return 2;}
__attribute__((visibility("default"))) int mon_uses(void) {return mon_hidden() + mon_static();}
// calls across an interposable reference: answered by this very library unless another one was made global
__attribute__((visibility("default"))) int mon_shared(void) {return MON_ID;}
__attribute__((visibility("default"))) int mon_calls_shared(void) {return mon_shared();}
#ifdef MON_LAZY
// never called: the library can be loaded lazily although this is defined nowhere
int mon_defined_nowhere(void);
__attribute__((visibility("default"))) int mon_calls_nowhere(void) {return mon_defined_nowhere();}
#endif
// a symbol whose value is zero
__asm__(".globl mon_null\n.set mon_null, 0\n");
__attribute__((visibility("default"))) int mon_a_symbol_with_a_rather_long_name_which_goes_on_and_on_until_it_is_longer_than_most_buffers_one_would_reserve_for_it_00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000(void) {return 3;}
