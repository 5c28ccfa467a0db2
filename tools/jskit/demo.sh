#!/bin/bash
# exit 0 if the JS client builds what the program expects in this scenario, nonzero if not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 9
trap 'rm -rf "${W:?}"' EXIT
cp -r "$D/demo" "$W/demo" || exit 9
N=/opt/veriftools/node/node_modules
cd "$W/demo" && "$N/.bin/esbuild" main.ts --bundle --platform=node --format=cjs --log-level=error --outfile="$W/main.cjs" \
  --alias:@client=/repo/clients/js/src/index.ts \
  --alias:@metaplex-foundation/umi/serializers="$W/demo/serializers.ts" \
  --alias:@metaplex-foundation/umi="$W/demo/umi.ts" || exit 8
node "$W/main.cjs"
