// What the images (executable, shared libraries) of the checks of P38 do.
#ifndef VERIF_P38_IMG_HPP
#define VERIF_P38_IMG_HPP

#include <string>
#include <vector>

namespace p38
{

// What is held by the holders of the harness.
struct Count {
    int made, gone;
};
extern Count count[2];
void point();
template <int I>
struct Witness {
    int a = 0, b = 0;
    Witness()
    {
        ++count[I].made;
        // The construction can be interrupted.
        point();
        a = 20;
        point();
        b = 22 + I;
    }
    ~Witness()
    {
        ++count[I].gone;
        a = b = -1;
    }
};

// The objects of a thread.
struct Slot;
// What is expected to be there: indices of sets of names, or negative.
struct Content {
    int poly = -1, ps = -1, fw = -1, limit = 0;
    bool witness[2] = {false, false};
};
using Names = std::vector<std::string>;
inline const std::vector<Names> sets{{"x", "y"}, {"z"}, {}};

// Where things are.
struct Addresses {
    const void *poly = nullptr, *ps = nullptr, *fw = nullptr, *witness[2] = {nullptr, nullptr};
};

// Executed in an image.
struct Image {
    // Static initialisation of the image.
    void (*load)();
    Slot *(*make)();
    void (*destroy)(Slot *);
    void (*poly)(Slot &, const Names &);
    void (*pseries)(Slot &, const Names &, int limit);
    void (*symbols)(Slot &, const Names &);
    void (*copy)(Slot &, const Slot &);
    bool (*equal)(const Slot &, const Slot &);
    void (*drop)(Slot &);
    void (*witness)(Slot &, unsigned);
    void (*truncate)(Slot &, int limit);
    bool (*good)(const Slot &, const Content &);
    Addresses (*where)(const Slot &);
    void (*statics)();
};
extern const Image image1, image2;

} // namespace p38

#endif
