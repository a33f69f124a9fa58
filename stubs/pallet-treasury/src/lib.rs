//! Only named: an optional dependency of the runtime configuration that is not used here.
