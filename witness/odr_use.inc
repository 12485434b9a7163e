#ifndef UNIT
#define UNIT 0
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
const void* CAT(use_global_state_, UNIT)(int argc, const char** argv)
{
    const Caitlyn::Application* a = Caitlyn::Application::Initialise();
    const Caitlyn::Application* b = Caitlyn::Application::Initialize(argc, argv);
    Caitlyn::Test::TestRegistry::Instance().RunAll();
    Caitlyn::JsonDocument d{Caitlyn::String{"{}"}};
    Caitlyn::BigInteger i{"1"};
    (void)Caitlyn::RandomBoolean();
    (void)Caitlyn::ToUppercase(Caitlyn::CodePoint(65));
    (void)Caitlyn::ToLowercase(Caitlyn::CodePoint(65));
    (void)Caitlyn::IsSpace(Caitlyn::CodePoint(65));
    (void)Caitlyn::IsUppercase(Caitlyn::CodePoint(65));
    (void)Caitlyn::IsLowercase(Caitlyn::CodePoint(65));
    (void)Caitlyn::Json::GetErrorString(Caitlyn::Json::JsonError::NoError);
    return a ? (const void*)a : (const void*)b;
}
