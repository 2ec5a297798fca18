// Stand-in for Nix's header, which is not installed here. nixd's protocol
// header includes it only for documentation purposes.
#pragma once
