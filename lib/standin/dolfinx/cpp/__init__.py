"""Stand-in for dolfinx.cpp (only what dxss touches)."""
