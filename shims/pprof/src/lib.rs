//! Stand-in: core-api names it for a feature that is off.
