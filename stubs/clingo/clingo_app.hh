// Stand-in for the clingo application on top of clasp (whose sources are not here): only what the C interface names.
#ifndef VERIF_CLINGO_CLINGO_APP_HH
#define VERIF_CLINGO_CLINGO_APP_HH
#include <clingo/clingocontrol.hh>
namespace Gringo {
class ClingoApp {
  public:
    ClingoApp(UIClingoApp app = UIClingoApp(new IClingoApp())) : app_(std::move(app)) {}
    void addOption(char const *, char const *, char const *, std::function<bool(char const *)>, char const * = nullptr, bool = false) {}
    void addFlag(char const *, char const *, char const *, bool &) {}
    int main(int, char **) { return 0; }

  private:
    UIClingoApp app_;
};
} // namespace Gringo
#endif
