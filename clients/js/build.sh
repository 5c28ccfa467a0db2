#!/bin/bash
# build.sh OUTDIR: bundles the JS client of /repo with the stand-ins, and lists what its types let a caller pass
H=$(cd "$(dirname "$(realpath "${BASH_SOURCE[0]}")")" && pwd)
OUT=$1; N=/opt/veriftools/node/node_modules
mkdir -p "$OUT" || exit 3
"$N/.bin/esbuild" "$H/entry.ts" --bundle --platform=node --format=cjs --log-level=error --outfile="$OUT/client.cjs" \
  --alias:@client=/repo/clients/js/src/index.ts \
  --alias:@metaplex-foundation/umi/serializers="$H/serializers.ts" \
  --alias:@metaplex-foundation/umi="$H/umi.ts" || exit 3
NODE_PATH=$N node "$H/types.cjs" /repo/clients/js/src/index.ts "$H" > "$OUT/types.json" || exit 3
