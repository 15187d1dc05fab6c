// Included before the sources of the applications; getc is undefined again after them.
// The console the applications wait at.
static std::function<int()> console;
#undef getc
static inline int fromConsole() { return console(); }
namespace std { static inline int consoleGetc( FILE * ) { return fromConsole(); } }
#define getc consoleGetc
