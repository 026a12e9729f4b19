#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
bash setup.sh >/tmp/gosym-setup.$$ 2>&1 || { cat /tmp/gosym-setup.$$; rm -f /tmp/gosym-setup.$$; exit 2; }
rm -f /tmp/gosym-setup.$$
exec bin/gosym check "$1" -tier "${2:-quick}"
