//! Empty stand-in for `mockall`, which non-test code only names as a dependency.
