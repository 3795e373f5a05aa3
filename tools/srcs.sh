#!/bin/bash
# srcs.sh NAME: the common sources a driver needs
f=/verif/h/$1.cpp
if grep -q '"evil.hpp"' $f; then echo base.cpp sim.cpp app.cpp wire.cpp evil.cpp
elif grep -q '"traffic.hpp"' $f; then echo base.cpp sim.cpp app.cpp wire.cpp traffic.cpp
elif grep -q '"wire.hpp"' $f; then echo base.cpp sim.cpp app.cpp wire.cpp
elif grep -q '"\(app\|sim\).hpp"' $f; then echo base.cpp sim.cpp app.cpp
else echo base.cpp; fi
