REC = r'''
from dataclasses import dataclass, field
from fairseq2.recipe import config as rc
from fairseq2.recipe.internal.config import _RecipeConfigHolder
from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
from fairseq2.utils.structured import StandardValueConverter
from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor, ReplaceEnvDirective
from fairseq2.world_info import WorldInfo
def tag(c):
    return _StandardSweepTagGenerator(rc.CommonSection(), WorldInfo(0, 2, 0, 1), _RecipeConfigHolder(c), StandardValueConverter()).maybe_generate()
'''
SEEDS = [
 dict(id="b38-env-empty", property="S01",
  needs="an environment variable that is set to the empty string, and a directive with a default",
  breaks="the default replaces the value of the environment variable",
  edits=[("utils/config.py", "        value = self._env.maybe_get(var_name)\n        if value is None:\n            value = match.group(2)", "        value = self._env.maybe_get(var_name)\n        if not value:\n            value = match.group(2)")],
  demo=REC + r'''
class E:
    def maybe_get(self, name): return ""
    def get(self, name): return ""
    def has(self, name): return True
r = StandardConfigProcessor([ReplaceEnvDirective(E())]).process({"a": "x${env:FOO:d}y"})
assert r == {"a": "xy"}, r
'''),
 dict(id="b39-merge-del-late", property="S01",
  needs="an override that deletes a key and gives the same key new content",
  breaks="the new content is deleted as well, or the old content is kept next to it",
  edits=[("utils/config.py", "            if key not in ignored_keys:\n                output[key] = deepcopy(target_value)", "            if key not in ignored_keys or key in source:\n                output[key] = deepcopy(target_value)")],
  demo=REC + r'''
r = StandardConfigMerger().merge({"a": {"x": 1, "y": 2}}, {"_del_": ["a"], "a": {"z": 3}})
assert r == {"a": {"z": 3}}, r
'''),
 dict(id="b40-validate-set", property="S01",
  needs="an invalid element in a set",
  breaks="the configuration is accepted",
  edits=[("utils/validation.py", "elif isinstance(obj, (list, tuple, Set)):", "elif isinstance(obj, (list, tuple)):")],
  demo=REC + r'''
from fairseq2.utils.validation import *
@dataclass(frozen=True)
class E:
    def validate(self):
        r = ValidationResult(); r.add_error("x"); return r
try:
    StandardObjectValidator().validate({"k": {E()}})
except ValidationError:
    pass
else:
    assert False
'''),
 dict(id="b41-sections-in-maps", property="S01",
  needs="a recipe section with a component inside of a map",
  breaks="its configuration stays an unstructured map",
  edits=[("recipe/internal/config.py", "                try:\n                    self._structure_sections(v)\n                except StructureError as ex:\n                    raise StructureError(\n                        f\"Value of the", "                try:\n                    if not isinstance(v, SupportsStructure):\n                        self._structure_sections(v)\n                except StructureError as ex:\n                    raise StructureError(\n                        f\"Value of the")],
  demo=REC + r'''
from fairseq2.recipe.internal.config import _StandardRecipeConfigStructurer
from fairseq2.recipe.component import ComponentManager, _StandardComponentManager
from fairseq2.composition import _register_library
from fairseq2.recipe.composition import _register_train_recipe
from fairseq2.runtime.dependency import DependencyContainer
@dataclass
class C:
    m: dict[str, rc.OptimizerSection] = field(default_factory=dict)
class R:
    def structure(self, resolver): pass
seen = []
class Sec(rc.OptimizerSection):
    def structure(self, resolver): seen.append(self)
c = C(m={"a": Sec()})
_StandardRecipeConfigStructurer(None, StandardValueConverter(), None)._structure_sections(c)
assert len(seen) == 1, seen
'''),
 dict(id="b42-tag-none", property="S01",
  needs="two configurations of which one has no value and the other an empty list",
  breaks="both runs use the same output directory",
  edits=[("recipe/internal/sweep_tag.py", "            tags[path] = \"none\"\n\n            return", "            return")],
  demo=REC + r'''
@dataclass
class C:
    a: int = 1
    b: list | None = None
assert tag({"b": None}) != tag({"b": []})
'''),
 dict(id="b43-optional-union", property="S01",
  needs="a field that accepts several types or None, given a value of the second type",
  breaks="the value is refused",
  edits=[("utils/structured.py", "is_optional = len(type_args) == 2 and NoneType in type_args", "is_optional = NoneType in type_args")],
  demo=REC + r'''
from pathlib import Path
v = StandardValueConverter().structure([1], dict[str, int] | list[int] | None)
assert v == [1], v
'''),
 dict(id="b44-tag-precision", property="S01",
  needs="two runs whose learning rates differ in the seventh digit",
  breaks="both runs use the same output directory",
  edits=[("recipe/internal/sweep_tag.py", "        if isinstance(obj, int | float):\n            tags[path] = f\"{obj}\"", "        if isinstance(obj, int | float):\n            tags[path] = f\"{obj:.6}\" if isinstance(obj, float) else f\"{obj}\"")],
  demo=REC + r'''
assert tag({"b": 0.1 + 0.2}) != tag({"b": 0.3})
'''),
 dict(id="b45-override-base", property="S01",
  needs="a configuration override below a field that is an object, and the same architecture used again in the process",
  breaks="the override stays in the registered configuration",
  edits=[("utils/structured.py", "        if isinstance(obj, kls):\n            return obj\n\n        if isinstance(obj, Mapping):\n            values = self.structure(obj, dict[str, object])\n\n            return self._create_dataclass(kls, values)", "        if isinstance(obj, kls):\n            return obj\n\n        if isinstance(obj, Mapping):\n            values = cast(dict[str, object], obj)\n\n            return self._create_dataclass(kls, values)")],
  demo=REC + r'''
@dataclass
class A:
    x: int = 1
d = {"x": 3}
v = StandardValueConverter()
assert v.structure(d, A) == v.structure(d, A) == A(3), d
'''),

 dict(id="b46-metadata-shared", property="A02",
  needs="a card that is retrieved in an environment, and afterwards without it",
  breaks="the values of the environment leak into the plain asset",
  edits=[("assets/metadata_provider.py", "            return deepcopy(asset_metadata)", "            return asset_metadata")],
  demo=r"""
from fairseq2.assets import StandardAssetStore
from fairseq2.assets.metadata_provider import load_in_memory_asset_metadata
st = StandardAssetStore([load_in_memory_asset_metadata("s", [{"name": "a", "f": 1}, {"name": "a@user", "f": 2}])])
assert st.retrieve_card("a").field("f").value == 2
assert st.retrieve_card("a@").field("f").value == 1
"""),
 dict(id="b47-user-dir-fallback", property="A02",
  needs="FAIRSEQ2_USER_ASSET_DIR points to a directory that does not exist",
  breaks="the assets in the default user directory are not found any more",
  edits=[("assets/dirs.py", "pointed to by the `{}` environment variable is not found.\", asset_dir, var_name)  # fmt: skip\n\n                asset_dir = None", "pointed to by the `{}` environment variable is not found.\", asset_dir, var_name)  # fmt: skip\n\n                return None")],
  demo=r"""
from pathlib import Path
from fairseq2.assets import StandardAssetDirectoryAccessor
from fairseq2.file_system import LocalFileSystem
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/x/fairseq2/assets")
    class E:
        def maybe_get(self, n): return {"FAIRSEQ2_USER_ASSET_DIR": d + "/no", "XDG_CONFIG_HOME": d + "/x"}.get(n)
    got = StandardAssetDirectoryAccessor(E(), LocalFileSystem()).maybe_get_user_dir()
    assert got == Path(d + "/x/fairseq2/assets").resolve(), got
finally:
    shutil.rmtree(d)
"""),
 dict(id="b48-config-base-wins", property="A02",
  needs="a card and its base that set the same field of the model configuration",
  breaks="the value of the base is used",
  edits=[("assets/card.py", "for name, config_overrides in reversed(all_config_overrides):", "for name, config_overrides in all_config_overrides:")],
  demo=r"""
from dataclasses import dataclass
from fairseq2.assets import AssetCard
from fairseq2.assets.card import StandardAssetConfigLoader
from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor
from fairseq2.utils.structured import StandardValueConverter
@dataclass
class C:
    n: int = 1
c = AssetCard("a", {"k": {"n": 3}}, AssetCard("b", {"k": {"n": 2}}))
got = StandardAssetConfigLoader(StandardValueConverter(), StandardConfigMerger(), StandardConfigProcessor([])).load(c, C(), "k")
assert got == C(3), got
"""),
 dict(id="b49-find-inherited", property="A02",
  needs="an asset that inherits its family from its base",
  breaks="it is not listed with the assets of the family",
  edits=[("assets/store.py", "            field_ = card.maybe_get_field(field)\n            if field_ is not None:\n                if value == field_.value:", "            field_ = card.maybe_get_field(field)\n            if field_ is not None and field in card.metadata:\n                if value == field_.value:")],
  demo=r"""
from fairseq2.assets import StandardAssetStore
from fairseq2.assets.metadata_provider import load_in_memory_asset_metadata
st = StandardAssetStore([load_in_memory_asset_metadata("s", [{"name": "a", "f": 1}, {"name": "b", "base": "a"}])])
assert sorted(c.name for c in st.find_cards("f", 1)) == ["a", "b"]
"""),
]
