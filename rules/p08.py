from rules.cache import p08 as check
