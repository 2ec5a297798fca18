#pragma once
#include "nix/fake.hh"
