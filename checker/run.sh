#!/bin/sh
sh /verif/setup.sh && /verif/.bin/vc "$@"
