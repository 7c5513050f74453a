package root

// The predefined words are part of the format: a font names options by their index (C14).
table predefWords
  props C14
  row "undefined" "undefined" "undefined" "undefined" "undefined" "undefined" "undefined" "undefined"
  row "undefined" "undefined" "fall" "autumn" "spring" "summer" "winter" "pixel"
  row "ggfnt" "freezing" "frosty" "cold" "warm" "hot" "one" "two"
  row "three" "four" "five" "six" "seven" "eight" "nine" "ten"
  row "first" "second" "third" "fourth" "fifth" "sixth" "continuous" "connect"
  row "glue" "glued" "disconnect" "join" "split" "separate" "nothing" "everything"
  row "none" "all" "incomplete" "partial" "complete" "half" "halved" "apply"
  row "disregard" "shallow" "deep" "omit" "include" "exclude" "full-width" "full-height"
  row "squeezed" "ascending" "descending" "slant" "italic" "italicised" "slanted" "small"
  row "big" "centered" "aligned" "center" "left" "right" "free" "hand"
  row "geometric" "bouncy" "floaty" "serif" "sans" "sans-serif" "swash" "decorated"
  row "icons" "words" "initials" "sterile" "clean" "basic" "small-caps" "unicase"
  row "titling-caps" "petite-caps" "uppercase" "lowercase" "minimum" "low" "medium" "median"
  row "average" "high" "maximum" "top" "bottom" "up" "down" "dye"
  row "palette" "grayscale" "monochrome" "mono" "colored" "uncolored" "light" "gray"
  row "dark" "opaque" "solid" "pattern" "semi" "open" "closed" "rotated"
  row "straight" "perpendicular" "orthogonal" "sharp" "curved" "flat" "smooth" "rough"
  row "thin" "wide" "thick" "compact" "spaced" "loose" "slim" "hollow"
  row "inverted" "reversed" "inverse" "reverse" "weak" "strong" "hard" "soft"
  row "simple" "minimal" "minimalistic" "complex" "advanced" "modern" "futuristic" "traditional"
  row "vintage" "classic" "elegant" "formal" "serious" "professional" "informal" "casual"
  row "playful" "funny" "quirky" "weird" "flashy" "edgy" "trendy" "whimsical"
  row "romantic" "sensual" "cozy" "flowy" "flowery" "ornate" "normal" "regular"
  row "tabular" "proportional" "lining" "oldstyle" "no-slash" "slash" "nil" "null"
  row "undefined" "standby" "neutral" "manual" "automatic" "static" "dynamic" "animated"
  row "default" "alt-A" "alt-B" "alt-C" "alt-D" "enabled" "disabled" "active"
  row "inactive" "on" "off" "variant-A" "variant-B" "variant-C" "variant-D" "variant-E"
  row "variant-F" "variant-G" "variant-H" "1" "2" "3" "4" "5"
  row "6" "7" "8" "9" "10" "11" "12" "13"
  row "14" "15" "16" "17" "18" "19" "20" "25"
  row "30" "35" "40" "45" "50" "55" "60" "65"
  row "70" "75" "80" "85" "90" "95" "99" "100"
