//! Shared parts of the scenario binaries.
