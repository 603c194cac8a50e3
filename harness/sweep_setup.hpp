// A sweeper on a small core, with its source and coarse mesh data.
#pragma once
#include <functional>
#include "core_problem.hpp"
#include "core/coarse_data.hpp"
#include "core/core_mesh.hpp"
#include "core/source.hpp"
#include "core/transport_sweeper.hpp"
#include "sweepers/transport_sweeper_factory.hpp"

namespace sw {
struct Setup {
    ci::Doc doc;
    mocc::CoreMesh mesh;
    mocc::UP_Sweeper_t sweeper;
    mocc::UP_Source_t source;
    std::unique_ptr<mocc::CoarseData> coarse;
    int ng;

    // core: what describes the core; swp: the <sweeper> tag
    Setup(const std::string &core, const std::string &swp, bool currents, const std::string &src = "<source scattering=\"P0\" />")
        : doc("<mocc>" + core + swp + src + "</mocc>"), mesh(doc.root())
    {
        sweeper = mocc::TransportSweeperFactory(doc.root(), mesh);
        source  = sweeper->create_source(doc.root().child("source"));
        sweeper->assign_source(source.get());
        ng = sweeper->n_group();
        if (currents) {
            coarse.reset(new mocc::CoarseData(mesh, ng));
            sweeper->set_coarse_data(coarse.get());
        }
        sweeper->initialize();
    }
    // one sweep of all groups with a fission source from the flux as it is
    // add: called with each group before its sweep
    void outer(double k = 1.0, const std::function<void(int)> &add = nullptr)
    {
        mocc::ArrayB1 fs(sweeper->n_reg_fission());
        sweeper->calc_fission_source(k, fs);
        sweeper->store_old_flux();
        for (int g = 0; g < ng; g++) {
            source->initialize_group(g);
            source->fission(fs, g);
            source->in_scatter(g);
            if (add) {
                add(g);
            }
            sweeper->sweep(g);
        }
    }
};
} // namespace sw
